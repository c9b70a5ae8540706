{-# LANGUAGE PackageImports #-}
module Foreign.C.String (module B, newCString, newCStringLen, newCAString, newCAStringLen) where
import "base" Foreign.C.String as B hiding (newCString, newCStringLen, newCAString, newCAStringLen)
import Foreign.Marshal.Alloc (mallocBytes)
import "base" Foreign.Marshal.Utils (copyBytes)
import "base" Foreign.Ptr

newCString, newCAString :: String -> IO CString
newCString s = B.withCStringLen s $ \(p, n) -> B.withCString s $ \q -> do { o <- mallocBytes (n + 1); copyBytes o q (n + 1); p `seq` return o }
newCAString s = B.withCAStringLen s $ \(_, n) -> B.withCAString s $ \q -> do { o <- mallocBytes (n + 1); copyBytes o q (n + 1); return o }
newCStringLen, newCAStringLen :: String -> IO CStringLen
newCStringLen s = B.withCStringLen s $ \(p, n) -> do { o <- mallocBytes n; copyBytes o p n; return (castPtr o, n) }
newCAStringLen s = B.withCAStringLen s $ \(p, n) -> do { o <- mallocBytes n; copyBytes o p n; return (castPtr o, n) }
