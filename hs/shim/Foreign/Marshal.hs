{-# LANGUAGE PackageImports #-}
module Foreign.Marshal (module X) where
import Foreign.Marshal.Alloc as X
import Foreign.Marshal.Array as X
import Foreign.Marshal.Utils as X
import "base" Foreign.Marshal.Error as X
import "base" Foreign.Marshal.Pool as X
