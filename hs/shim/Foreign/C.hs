{-# LANGUAGE PackageImports #-}
module Foreign.C (module X) where
import "base" Foreign.C.Types as X
import Foreign.C.String as X
import "base" Foreign.C.Error as X
