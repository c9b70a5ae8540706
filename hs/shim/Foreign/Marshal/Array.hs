{-# LANGUAGE PackageImports, ScopedTypeVariables #-}
module Foreign.Marshal.Array (module B, mallocArray, mallocArray0, callocArray, callocArray0, reallocArray, reallocArray0, newArray, newArray0) where
import "base" Foreign.Marshal.Array as B hiding (mallocArray, mallocArray0, callocArray, callocArray0, reallocArray, reallocArray0, newArray, newArray0)
import Foreign.Marshal.Alloc
import "base" Foreign.Ptr
import "base" Foreign.Storable

mallocArray, mallocArray0, callocArray, callocArray0 :: forall a. Storable a => Int -> IO (Ptr a)
mallocArray n = mallocBytes (n * sizeOf (undefined :: a))
mallocArray0 n = mallocArray (n + 1)
callocArray n = callocBytes (n * sizeOf (undefined :: a))
callocArray0 n = callocArray (n + 1)
reallocArray, reallocArray0 :: forall a. Storable a => Ptr a -> Int -> IO (Ptr a)
reallocArray p n = reallocBytes p (n * sizeOf (undefined :: a))
reallocArray0 p n = reallocArray p (n + 1)
newArray :: Storable a => [a] -> IO (Ptr a)
newArray xs = do { p <- mallocArray (length xs); pokeArray p xs; return p }
newArray0 :: Storable a => a -> [a] -> IO (Ptr a)
newArray0 m xs = do { p <- mallocArray0 (length xs); pokeArray0 m p xs; return p }
