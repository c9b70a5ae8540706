{-# LANGUAGE PackageImports #-}
module Foreign.Marshal.Utils (module B, new) where
import "base" Foreign.Marshal.Utils as B hiding (new)
import Foreign.Marshal.Alloc (malloc)
import "base" Foreign.Ptr
import "base" Foreign.Storable
new :: Storable a => a -> IO (Ptr a)
new v = do { p <- malloc; poke p v; return p }
