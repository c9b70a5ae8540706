{-# LANGUAGE ScopedTypeVariables, PackageImports #-}
-- Reads one plan per line, executes it against the real bindings above the simulated allocator, and reports one
-- line per plan. A plan is a list of steps ("|" between them); the steps that others nest carry nested=1.
module Main (main) where

import FlatCV
import qualified Data.Vector.Storable as V
import qualified Data.Text as T
import qualified Data.Map.Strict as M
import Control.Concurrent (yield)
import Control.Exception
import Control.Monad
import Data.Char (chr, digitToInt)
import Data.IORef
import Data.Int
import Data.List (isPrefixOf)
import Data.Word
import System.IO
import System.Mem (performMajorGC)
import GHC.IO.Encoding (setForeignEncoding, setFileSystemEncoding, setLocaleEncoding, utf8)
import "base" Foreign.C.String (CString, peekCString, withCString)
import "base" Foreign.C.Types
import "base" Foreign.ForeignPtr (FinalizerPtr, newForeignPtr)
import "base" Foreign.Marshal.Alloc (alloca, allocaBytes)
import "base" Foreign.Marshal.Array (peekArray, withArray)
import "base" Foreign.Marshal.Utils (copyBytes)
import "base" Foreign.Ptr
import "base" Foreign.Storable (peek, poke)

foreign import ccall safe "rt_init" rtInit :: FunPtr (CInt -> IO ()) -> IO ()
foreign import ccall "wrapper" mkNest :: (CInt -> IO ()) -> IO (FunPtr (CInt -> IO ()))
foreign import ccall unsafe "rt_reset" rtReset :: Word64 -> IO ()
foreign import ccall unsafe "rt_plan" rtPlan :: CInt -> CInt -> CInt -> IO ()
foreign import ccall unsafe "rt_begin" rtBegin :: CInt -> IO ()
foreign import ccall unsafe "rt_end" rtEnd :: IO ()
foreign import ccall unsafe "rt_phase" rtPhase :: CInt -> IO CInt
foreign import ccall unsafe "rt_count" rtCount :: IO CInt
foreign import ccall unsafe "rt_fired" rtFired :: CInt -> IO CInt
foreign import ccall unsafe "rt_live" rtLive :: IO CInt
foreign import ccall unsafe "rt_live_bytes" rtLiveBytes :: IO CLong
foreign import ccall unsafe "rt_files" rtFiles :: IO CInt
foreign import ccall unsafe "rt_viol" rtViol :: IO CString
foreign import ccall unsafe "rt_mix" rtMix :: Ptr Word8 -> CSize -> IO ()
foreign import ccall unsafe "rt_mixw" rtMixW :: Word64 -> IO ()
foreign import ccall unsafe "rt_hash" rtHash :: IO Word64
foreign import ccall unsafe "rt_size" rtSize :: Ptr Word8 -> IO CLong
foreign import ccall unsafe "rt_image" rtImage :: Ptr Word8 -> CInt -> CInt -> CInt -> Word64 -> CInt -> IO ()
foreign import ccall unsafe "rt_file" rtFile :: Word64 -> CInt -> CInt -> CInt -> CInt -> IO ()
foreign import ccall safe "rt_ref" rtRef :: CString -> CInt -> CInt -> CInt -> Ptr Double -> CInt -> CString -> CString -> Ptr Word8 -> CLong -> Ptr Double -> Ptr CInt -> Ptr (Ptr Word8) -> Ptr CLong -> IO CInt
foreign import ccall unsafe "sim_malloc" simMalloc :: CSize -> IO (Ptr Word8)
foreign import ccall unsafe "sim_free" simFree :: Ptr Word8 -> IO ()
foreign import ccall unsafe "&sim_free" simFreeFin :: FinalizerPtr Word8

data Res = Res [Double] (V.Vector Word8)
type Step = M.Map String String

geti :: Num a => Step -> String -> a
geti st k = fromInteger (maybe 0 read (M.lookup k st))
gets :: Step -> String -> String
gets st k = M.findWithDefault "" k st
text :: Step -> String -> T.Text
text st k = T.pack (go (gets st k)) where go (a:b:c:d:r) = chr (foldl (\x y -> x * 16 + digitToInt y) 0 [a, b, c, d]) : go r
                                          go _ = []
split :: Char -> String -> [String]
split c s = case break (== c) s of { (a, []) -> [a]; (a, _:r) -> a : split c r }
parseStep :: String -> Step
parseStep l = M.fromList [(a, drop 1 b) | wd <- words l, let (a, b) = break (== '=') wd]
params :: Step -> [Double]
params st = [read x | x <- split ',' (gets st "p"), not (null x)]
listOf :: Step -> String -> [Int]
listOf st k = [read x | x <- split ',' (gets st k), not (null x)]

chans :: String -> Step -> Int
chans op st | base `elem` ["singleToMultichannel", "foerstnerCorner", "watershedSegmentation"] = 1
            | base `elem` ["crop", "trim", "trimThreshold", "drawCircle", "drawDisk", "addBorder", "generateHistogram", "sobelEdgeDetection", "applyGlobalThreshold"] = geti st "ch"
            | base `elem` ["calculatePerspectiveTransform", "getExifOrientation", "parseHexColor"] = 0
            | otherwise = 4
  where base = if "ptr_" `isPrefixOf` op then drop 4 op else op

freshInput :: Step -> IO (V.Vector Word8)
freshInput st = do
  let c = chans (gets st "op") st; w = geti st "w"; h = geti st "h"
      n = if w > 0 && h > 0 then w * h * c else 0 :: Int
      off = if geti st "slice" > (0 :: Int) then geti st "slice" else 0
      total = n + 2 * off
  if geti st "src" == (1 :: Int)
    then do
      v <- V.generateM total (\_ -> return 0x5A)
      V.unsafeWith v $ \p -> when (n > 0) $ rtImage (p `plusPtr` off) (fromIntegral w) (fromIntegral h) (fromIntegral c) (geti st "seed") (geti st "style")
      return (V.slice off n v)
    else do
      p <- simMalloc (fromIntegral (total - (if geti st "slice" == (-1 :: Int) then 0 else off)))   -- the image ends with the block: reading on meets a guard page
      when (n > 0) $ rtImage (p `plusPtr` off) (fromIntegral w) (fromIntegral h) (fromIntegral c) (geti st "seed") (geti st "style")
      fp <- newForeignPtr simFreeFin p
      return (V.unsafeFromForeignPtr fp off n)

vec :: V.Vector Word8 -> IO Res
vec v = return (Res [] v)
sized :: (Real a, Real b) => (a, b, V.Vector Word8) -> IO Res
sized (a, b, v) = return (Res [realToFrac a, realToFrac b] v)
cornersOf :: [Double] -> Corners
cornersOf (a:b:c:d:e:f:g:h:_) = Corners a b c d e f g h
cornersOf _ = error "plan: corners"
matrixOf :: [Double] -> Matrix3x3
matrixOf (a:b:c:d:e:f:g:h:i:_) = Matrix3x3 a b c d e f g h i
matrixOf _ = error "plan: matrix"
unCorners :: Corners -> [Double]
unCorners (Corners a b c d e f g h) = [a, b, c, d, e, f, g, h]
unMatrix :: Matrix3x3 -> [Double]
unMatrix (Matrix3x3 a b c d e f g h i) = [a, b, c, d, e, f, g, h, i]

newtype NullResult = NullResult () deriving Show
instance Exception NullResult

-- a result of the pointer API: the caller copies and releases it
fromPtr :: Int -> IO (Ptr Word8) -> IO Res
fromPtr n act = do
  p <- act
  when (p == nullPtr) $ throwIO (NullResult ())
  sz <- rtSize p
  if fromIntegral sz < n then return (Res [-1, fromIntegral sz] V.empty) else do
    ph <- rtPhase 0
    q <- simMalloc (fromIntegral n)
    _ <- rtPhase ph
    copyBytes q p n
    fp <- newForeignPtr simFreeFin q
    simFree p
    return (Res [] (V.unsafeFromForeignPtr0 fp n))

structPtr :: Int -> ([Double] -> [Double]) -> IO (Ptr a) -> IO Res
structPtr n f act = do
  p <- act
  when (p == nullPtr) $ throwIO (NullResult ())
  ds <- peekArray n (castPtr p)
  simFree (castPtr p)
  return (Res (f ds) V.empty)

runOp :: Step -> V.Vector Word8 -> IO Res
runOp st v = case gets st "op" of
  "grayscale" -> grayscale w h v >>= vec
  "grayscaleStretch" -> grayscaleStretch w h v >>= vec
  "rgbaToGrayscale" -> rgbaToGrayscale w h v >>= vec
  "singleToMultichannel" -> singleToMultichannel w h v >>= vec
  "gaussianBlur" -> gaussianBlur w h (p 0) v >>= vec
  "otsuThreshold" -> otsuThreshold w h (p 0 /= 0) v >>= vec
  "bwSmart" -> bwSmart w h (p 0 /= 0) v >>= vec
  "applyGlobalThreshold" -> applyGlobalThreshold (fromIntegral (V.length v)) (round (p 0)) v >>= vec
  "sobelEdgeDetection" -> sobelEdgeDetection w h ch v >>= vec
  "foerstnerCorner" -> foerstnerCorner w h (p 0) v >>= vec
  "binaryDilationDisk" -> binaryDilationDisk wi hi (round (p 0)) v >>= vec
  "binaryErosionDisk" -> binaryErosionDisk wi hi (round (p 0)) v >>= vec
  "binaryClosingDisk" -> binaryClosingDisk wi hi (round (p 0)) v >>= vec
  "binaryOpeningDisk" -> binaryOpeningDisk wi hi (round (p 0)) v >>= vec
  "flipX" -> flipX w h v >>= vec
  "flipY" -> flipY w h v >>= vec
  "transpose" -> transpose w h v >>= vec
  "transverse" -> transverse w h v >>= vec
  "rotate90CW" -> rotate90CW w h v >>= vec
  "rotate180" -> rotate180 w h v >>= vec
  "rotate270CW" -> rotate270CW w h v >>= vec
  "resize" -> resize w h (p 0) (p 1) v >>= sized
  "crop" -> crop w h ch (u 0) (u 1) (u 2) (u 3) v >>= vec
  "trim" -> trim wi hi ch v >>= sized
  "trimThreshold" -> trimThreshold wi hi ch (p 0) v >>= sized
  "calculatePerspectiveTransform" -> do { m <- calculatePerspectiveTransform (cornersOf ps) (cornersOf (drop 8 ps)); return (Res (unMatrix m) V.empty) }
  "applyMatrix3x3" -> applyMatrix3x3 wi hi (i 0) (i 1) (matrixOf (drop 2 ps)) v >>= vec
  "detectCorners" -> do { c <- detectCorners wi hi v; return (Res (unCorners c) V.empty) }
  "extractDocument" -> extractDocument w h (u 0) (u 1) v >>= vec
  "extractDocumentAuto" -> extractDocumentAuto w h v >>= sized
  "drawCircle" -> drawCircle w h ch (text st "s1") (p 0) (p 1) (p 2) v >>= vec
  "drawDisk" -> drawDisk w h ch (text st "s1") (p 0) (p 1) (p 2) v >>= vec
  "addBorder" -> addBorder w h ch (text st "s1") (u 0) v >>= sized
  "generateHistogram" -> generateHistogram w h ch v >>= sized
  "watershedSegmentation" -> watershedSegmentation w h (pts (drop 1 ps)) (p 0 /= 0) v >>= vec
  "getExifOrientation" -> do { o <- getExifOrientation (if p 3 /= 0 then "missing.jpg" else "photo.jpg"); return (Res [fromIntegral o] V.empty) }
  "parseHexColor" -> do { (r, g, b) <- parseHexColor (text st "s1"); return (Res [fromIntegral r, fromIntegral g, fromIntegral b] V.empty) }
  "convertToBinary" -> convertToBinary wi hi (text st "s1") (text st "s2") v >>= vec
  "ptr_grayscale" -> px4 (grayscalePtr w h)
  "ptr_grayscaleStretch" -> px4 (grayscaleStretchPtr w h)
  "ptr_rgbaToGrayscale" -> V.unsafeWith v (\q -> fromPtr npx (rgbaToGrayscalePtr w h q))
  "ptr_singleToMultichannel" -> px4 (singleToMultichannelPtr w h)
  "ptr_gaussianBlur" -> px4 (gaussianBlurPtr w h (p 0))
  "ptr_otsuThreshold" -> px4 (otsuThresholdPtr w h (p 0 /= 0))
  "ptr_bwSmart" -> px4 (bwSmartPtr w h (p 0 /= 0))
  "ptr_calculatePerspectiveTransform" -> alloca $ \a -> alloca $ \b -> do { poke a (cornersOf ps); poke b (cornersOf (drop 8 ps)); structPtr 9 id (calculatePerspectiveTransformPtr a b) }
  "ptr_applyMatrix3x3" -> alloca $ \m -> do { poke m (matrixOf (drop 2 ps)); V.unsafeWith v $ \q -> fromPtr (max 0 (round (p 0) * round (p 1) * 4)) (applyMatrix3x3Ptr wi hi q (i 0) (i 1) m) }
  "ptr_detectCorners" -> V.unsafeWith v $ \q -> structPtr 8 id (detectCornersPtr q wi hi)
  "ptr_flipX" -> px4 (flipXPtr w h)
  "ptr_flipY" -> px4 (flipYPtr w h)
  "ptr_transpose" -> px4 (transposePtr w h)
  "ptr_rotate90CW" -> px4 (rotate90CWPtr w h)
  "ptr_rotate180" -> px4 (rotate180Ptr w h)
  "ptr_rotate270CW" -> px4 (rotate270CWPtr w h)
  o -> error ("plan: unknown operation " ++ o)
 where
  w = geti st "w" :: Word32
  h = geti st "h" :: Word32
  wi = geti st "w" :: Int32
  hi = geti st "h" :: Int32
  ch = geti st "ch" :: Word32
  ps = params st
  p k = ps !! k :: Double
  u k = round (p k) :: Word32
  i k = round (p k) :: Int32
  npx = fromIntegral w * fromIntegral h :: Int
  px4 f = V.unsafeWith v (\q -> fromPtr (npx * 4) (f q))
  pts (a:b:r) = Point2D a b : pts r
  pts _ = []

setupFile :: Step -> IO ()
setupFile st = case params st of
  (o:e:c:m:t:_) | gets st "op" == "getExifOrientation" -> m `seq` rtFile (geti st "seed") (round o) (round t) (round e) (round c)
  _ -> return ()

-- what the C library computes for the step, straight from C
reference :: Step -> V.Vector Word8 -> IO (Maybe Res)
reference st v =
  withCString (gets st "op") $ \op -> withCString (T.unpack (text st "s1")) $ \s1 -> withCString (T.unpack (text st "s2")) $ \s2 ->
  withArray (params st ++ replicate 16 0) $ \ps -> allocaBytes 256 $ \sc -> alloca $ \nsc -> alloca $ \out -> alloca $ \len ->
  V.unsafeWith v $ \q -> do
    setupFile st
    ok <- rtRef op (geti st "w") (geti st "h") (geti st "ch") ps (fromIntegral (length (params st))) s1 s2 q (fromIntegral (V.length v)) sc nsc out len
    if ok == 0 then return Nothing else do
      k <- peek nsc; ds <- peekArray (fromIntegral k) sc; o <- peek out; n <- peek len
      bytes <- if o == nullPtr then return V.empty else do
        l <- peekArray (fromIntegral n) o
        simFree o
        return (V.fromList l)
      return (Just (Res ds bytes))

same :: Double -> Double -> Bool
same a b = a == b || (isNaN a && isNaN b)

settle :: IO ()
settle = replicateM_ 2 (performMajorGC >> yield)

attempt :: Step -> V.Vector Word8 -> IO (Either SomeException Res)
attempt st input = try (runOp st input >>= \(Res ds v) -> do { _ <- evaluate (sum ds); _ <- evaluate (V.length v); return (Res ds v) })
{-# NOINLINE attempt #-}

-- execute one step in the given mode; the result is the observation
execStep :: Bool -> Step -> Maybe Res -> V.Vector Word8 -> IO (Either String (Maybe Res))
execStep keep st expected input = do
  setupFile st
  f0 <- rtFired 0
  (r, touched) <- if keep
    then do { before <- evaluate (V.force input); r <- attempt st input; same' <- evaluate (V.toList before == V.toList input); return (r, not same') }
    else do { r <- attempt st input; return (r, False) }   -- nothing refers to the input any more once the bindings have it
  case r of
    Left (e :: SomeException) -> do
      rtMixW 7
      failed <- rtFired 0
      return $ case () of
        _ | touched -> Left "input changed: the vector given as input was modified"
        _ | take 5 (show e) == "plan:" -> Left ("harness: " ++ show e)
        _ | Just _ <- expected, failed == f0 -> Left ("exception without a failure: " ++ takeWhile (/= '\n') (show e))
        _ -> Right Nothing
    Right (Res ds v) -> do
      when (geti st "late" == (1 :: Int)) settle   -- the result must outlive a collection
      V.unsafeWith v $ \q -> rtMix q (fromIntegral (V.length v))
      mapM_ (rtMixW . truncate . max (-1e9) . min 1e9 . (\x -> if isNaN x then 0 else x * 1000)) ds
      return $ case expected of
        _ | touched -> Left "input changed: the vector given as input was modified"
        Nothing -> Left "value though the C library reports a failure"
        Just (Res eds ev)
          | length ds /= length eds || not (and (zipWith same ds eds)) -> Left ("result: " ++ show ds ++ ", the C library computes " ++ show eds)
          | V.length v /= V.length ev -> Left ("result: " ++ show (V.length v) ++ " bytes, the C library returns " ++ show (V.length ev))
          | Just k <- V.findIndex id (V.zipWith (/=) v ev) -> Left ("result: byte " ++ show k ++ " is " ++ show (v V.! k) ++ ", the C library computes " ++ show (ev V.! k))
          | otherwise -> Right (Just (Res ds v))

runPlan :: IORef (CInt -> IO ()) -> Bool -> String -> IO String
runPlan nestRef inj line = do
  let steps = map parseStep (split '|' line)
      (nestedSteps, mainSteps) = (filter ((== (1 :: Int)) . (`geti` "nested")) steps, filter ((/= (1 :: Int)) . (`geti` "nested")) steps)
  rtReset (case steps of { (s:_) -> geti s "seed"; _ -> 1 })
  problem <- newIORef ""
  let complain s = modifyIORef problem (\o -> if null o then s else o)
  nrefs <- forM nestedSteps $ \s -> do { i <- freshInput s; reference s i }
  writeIORef nestRef $ \k -> do
    let idx = fromIntegral k `mod` max 1 (length nestedSteps)
    unless (null nestedSteps) $ do
      let s = nestedSteps !! idx
      ph <- rtPhase 0
      i <- freshInput s
      _ <- rtPhase 1
      r <- execStep False s (nrefs !! idx) i
      _ <- rtPhase ph
      case r of
        Left e -> complain ("nested step " ++ gets s "op" ++ ": " ++ e)
        _ -> return ()
  allocs <- newIORef 0
  excs <- newIORef (0 :: Int)
  chain <- newIORef (Nothing :: Maybe (V.Vector Word8))
  forM_ (zip [0 :: Int ..] mainSteps) $ \(k, s) -> do
    bad <- readIORef problem
    when (null bad) $ do
      prev <- readIORef chain
      writeIORef chain Nothing
      let need = let w = geti s "w"; h = geti s "h" in if w > 0 && h > 0 then w * h * chans (gets s "op") s else 0
          chained = geti s "chain" == (1 :: Int) && maybe False ((== need) . V.length) prev
      expected <- case prev of
        Just v | chained -> reference s v
        _ -> do { i <- freshInput s; reference s i }
      settle
      rtPlan 4 0 0
      forM_ (listOf s "fail") $ \n -> rtPlan 0 (fromIntegral n) 0
      forM_ (listOf s "gc") $ \n -> rtPlan 1 (fromIntegral n) 0
      forM_ (zip [0 ..] (listOf s "nest")) $ \(j, n) -> rtPlan 2 (fromIntegral n) j
      when (geti s "from" > (0 :: Int)) $ rtPlan 3 (geti s "from") 0
      let keep = geti s "keep" == (1 :: Int)
      input <- case prev of { Just v | chained -> return v; _ -> freshInput s }
      rtBegin (if inj then 1 else 0)
      r <- execStep keep s expected input
      rtEnd
      n <- rtCount
      modifyIORef' allocs (+ n)
      case r of
        Left e -> complain ("step " ++ show k ++ " " ++ gets s "op" ++ ": " ++ e)
        Right Nothing -> modifyIORef' excs (+ 1)
        Right (Just (Res _ v)) -> when (k + 1 < length mainSteps) $ writeIORef chain (Just v)
  writeIORef chain Nothing
  writeIORef nestRef (\_ -> return ())
  settle
  live <- rtLive
  bytes <- rtLiveBytes
  files <- rtFiles
  cviol <- rtViol >>= peekCString
  unless (null cviol) $ complain cviol
  when (live /= 0) $ complain ("leak: " ++ show live ++ " blocks (" ++ show bytes ++ " bytes) are still allocated when no result is referenced any more")
  when (files /= 0) $ complain ("leak: " ++ show files ++ " files left open")
  bad <- readIORef problem
  f <- mapM rtFired [0, 1, 2, 3]
  n <- readIORef allocs
  x <- readIORef excs
  hash <- rtHash
  let tag = if null bad then "ok" else if "harness" `isPrefixOf` dropWhile (/= 'h') bad && "plan:" `elem` words bad then "harness" else "viol"
  return (unwords ([tag, show hash, show n, show x] ++ map show f) ++ " " ++ bad)

main :: IO ()
main = do
  setLocaleEncoding utf8 >> setForeignEncoding utf8 >> setFileSystemEncoding utf8
  hSetEncoding stdin utf8
  nestRef <- newIORef (\_ -> return ())
  cb <- mkNest (\k -> join (fmap ($ k) (readIORef nestRef)))
  rtInit cb
  mode <- getLine
  let loop = do
        eof <- isEOF
        unless eof $ do
          l <- getLine
          r <- runPlan nestRef (mode /= "noinject") l
          putStrLn r
          hFlush stdout
          loop
  loop
