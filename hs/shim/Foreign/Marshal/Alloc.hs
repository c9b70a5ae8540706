{-# LANGUAGE PackageImports, ScopedTypeVariables #-}
-- Seam: the allocation functions of the same module in base, on the simulated allocator.
module Foreign.Marshal.Alloc (module B, malloc, mallocBytes, calloc, callocBytes, realloc, reallocBytes, free, finalizerFree) where
import "base" Foreign.Marshal.Alloc as B hiding (malloc, mallocBytes, calloc, callocBytes, realloc, reallocBytes, free, finalizerFree)
import "base" Foreign.C.Types (CSize (..))
import "base" Foreign.ForeignPtr (FinalizerPtr)
import "base" Foreign.Ptr
import "base" Foreign.Storable
import "base" GHC.IO.Exception

foreign import ccall safe "sim_malloc" c_malloc :: CSize -> IO (Ptr a)
foreign import ccall safe "sim_calloc" c_calloc :: CSize -> CSize -> IO (Ptr a)
foreign import ccall safe "sim_realloc" c_realloc :: Ptr a -> CSize -> IO (Ptr b)
foreign import ccall unsafe "sim_free" c_free :: Ptr a -> IO ()
foreign import ccall unsafe "&sim_free" finalizerFree :: FinalizerPtr a

orThrow :: String -> IO (Ptr a) -> IO (Ptr a)
orThrow f act = do
  p <- act
  if p == nullPtr then ioError (IOError Nothing ResourceExhausted f "out of memory" Nothing Nothing) else return p

malloc :: forall a. Storable a => IO (Ptr a)
malloc = mallocBytes (sizeOf (undefined :: a))
mallocBytes :: Int -> IO (Ptr a)
mallocBytes n = orThrow "malloc" (c_malloc (fromIntegral n))
calloc :: forall a. Storable a => IO (Ptr a)
calloc = callocBytes (sizeOf (undefined :: a))
callocBytes :: Int -> IO (Ptr a)
callocBytes n = orThrow "calloc" (c_calloc 1 (fromIntegral n))
realloc :: forall a b. Storable b => Ptr a -> IO (Ptr b)
realloc p = orThrow "realloc" (c_realloc p (fromIntegral (sizeOf (undefined :: b))))
reallocBytes :: Ptr a -> Int -> IO (Ptr a)
reallocBytes p 0 = free p >> return nullPtr
reallocBytes p n = orThrow "realloc" (c_realloc p (fromIntegral n))
free :: Ptr a -> IO ()
free = c_free
