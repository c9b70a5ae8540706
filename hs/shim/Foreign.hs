{-# LANGUAGE PackageImports #-}
module Foreign (module X) where
import "base" Data.Bits as X
import "base" Data.Int as X
import "base" Data.Word as X
import "base" Foreign.Ptr as X
import "base" Foreign.ForeignPtr as X
import "base" Foreign.StablePtr as X
import "base" Foreign.Storable as X
import Foreign.Marshal as X
