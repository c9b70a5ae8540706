From 76e8cd118e9b77ee054293554ac57e73ff1db841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:33 +0000
Subject: [PATCH 01/25] fix: corner detection reports failures instead of
 exiting, crashing or leaking

Detection exited the whole process on any failed step, dereferenced a null
segmentation, leaked the segmentation and the peaks, overflowed the sorted
corners with 3 peaks and used uninitialised ones (or divided by zero) with
fewer. Failures now yield NULL from fcv_detect_corners_ptr (and with it from
document extraction and the CLI) or the corners of the whole image.
---
 src/cli.c              |  14 ++++-
 src/corner_detection.c | 121 +++++++++++++++++++++++++++++++++--------
 src/extract_document.c |  16 +++++-
 3 files changed, 123 insertions(+), 28 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 41a3164..12332ec 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -915,7 +915,12 @@ uint8_t *apply_operation(
     return (uint8_t *)fcv_bw_smart(*width, *height, true, input_data);
   }
   else if (strcmp(operation, "detect_corners") == 0) {
-    Corners corners = fcv_detect_corners(input_data, *width, *height);
+    Corners *detected = fcv_detect_corners_ptr(input_data, *width, *height);
+    if (!detected) {
+      return NULL;
+    }
+    Corners corners = *detected;
+    free(detected);
     printf("  {\n");
     printf("    \"corners\": {\n");
     printf("      \"top_left\": [%.0f, %.0f],\n", corners.tl_x, corners.tl_y);
@@ -937,7 +942,12 @@ uint8_t *apply_operation(
     return result;
   }
   else if (strcmp(operation, "draw_corners") == 0) {
-    Corners cs = fcv_detect_corners(input_data, *width, *height);
+    Corners *detected = fcv_detect_corners_ptr(input_data, *width, *height);
+    if (!detected) {
+      return NULL;
+    }
+    Corners cs = *detected;
+    free(detected);
     printf("  Detected corners:\n");
     printf("    Top-left:     (%.0f, %.0f)\n", cs.tl_x, cs.tl_y);
     printf("    Top-right:    (%.0f, %.0f)\n", cs.tr_x, cs.tr_y);
diff --git a/src/corner_detection.c b/src/corner_detection.c
index ff61e14..8f39040 100644
--- a/src/corner_detection.c
+++ b/src/corner_detection.c
@@ -106,15 +106,11 @@ void write_debug_img(Image img, const char *filename) {
 #endif
 
 /**
- * Detect corners in the input image.
+ * The corners of the whole image.
+ * Used when no document could be found or the detection failed.
  */
-Corners
-fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
-  assert(image != NULL);
-  assert(width > 0);
-  assert(height > 0);
-
-  Corners default_corners = {
+static Corners image_corners(int32_t width, int32_t height) {
+  return (Corners){
     .tl_x = 0,
     .tl_y = 0,
     .tr_x = width - 1,
@@ -124,12 +120,27 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
     .bl_x = 0,
     .bl_y = height - 1
   };
+}
+
+/**
+ * Detect corners in the input image and store them in `corners`.
+ * Returns 1 on success, 0 on failure.
+ */
+static int32_t detect_corners(
+  const uint8_t *image,
+  int32_t width,
+  int32_t height,
+  Corners *corners
+) {
+  assert(image != NULL);
+  assert(width > 0);
+  assert(height > 0);
 
   // 1. Convert to grayscale
   uint8_t const *grayscale_image = fcv_grayscale(width, height, image);
   if (!grayscale_image) {
     fprintf(stderr, "Error: Failed to convert image to grayscale\n");
-    return default_corners;
+    return 0;
   }
 
   // 2. Resize image to 256x256
@@ -147,7 +158,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)grayscale_image);
   if (!resized_image) {
     fprintf(stderr, "Error: Failed to resize image\n");
-    exit(EXIT_FAILURE);
+    return 0;
   }
 
 #ifdef DEBUG_LOGGING
@@ -168,7 +179,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
 #endif
   if (!blurred_image) {
     fprintf(stderr, "Error: Failed to apply Gaussian blur\n");
-    exit(EXIT_FAILURE);
+    return 0;
   }
 
   // 4. Create elevation map with Sobel edge detection
@@ -177,7 +188,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)blurred_image);
   if (!elevation_map) {
     fprintf(stderr, "Error: Failed to create elevation map with Sobel\n");
-    exit(EXIT_FAILURE);
+    return 0;
   }
 
   // 5. Flatten elevation map at center to not get trapped in a local minimum
@@ -208,7 +219,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free(elevation_map);
   if (!bordered_elevation_map) {
     fprintf(stderr, "Error: Failed to add black border to elevation map\n");
-    exit(EXIT_FAILURE);
+    return 0;
   }
 
 #ifdef DEBUG_LOGGING
@@ -225,7 +236,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   if (!markers) {
     fprintf(stderr, "Error: Failed to allocate memory for markers\n");
     free((void *)bordered_elevation_map);
-    exit(EXIT_FAILURE);
+    return 0;
   }
   // Set center as foreground marker and upper left corner as background marker
   // Adjust for the added border (border width = 1)
@@ -242,13 +253,17 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   );
   free((void *)bordered_elevation_map);
   free((void *)markers);
+  if (!segmented_image_wide) {
+    fprintf(stderr, "Error: Failed to perform watershed segmentation\n");
+    return 0;
+  }
 
   // Remove 1 pixel border from segmented image
   uint8_t *segmented_image = malloc(out_width * out_height * 4);
   if (!segmented_image) {
     fprintf(stderr, "Error: Failed to allocate memory for segmented image\n");
     free((void *)segmented_image_wide);
-    exit(EXIT_FAILURE);
+    return 0;
   }
   for (uint32_t y = 1; y < bordered_height - 1; y++) {
     memcpy(
@@ -257,6 +272,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
       out_width * 4
     );
   }
+  free((void *)segmented_image_wide);
 
 #ifdef DEBUG_LOGGING
   out_img.width = out_width;
@@ -271,7 +287,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   if (region_count != 2) {
     fprintf(stderr, "Error: Expected 2 regions, found %d\n", region_count);
     free((void *)segmented_image);
-    exit(EXIT_FAILURE);
+    return 0;
   }
 
   // Convert red pixel (marker 1 - foreground) to white
@@ -284,6 +300,10 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
     "00FF00"  // green -> black
   );
   free((void *)segmented_image);
+  if (!segmented_binary) {
+    fprintf(stderr, "Error: Failed to convert segmentation to binary\n");
+    return 0;
+  }
 
 #ifdef DEBUG_LOGGING
   out_img.data = segmented_binary;
@@ -301,7 +321,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)segmented_binary);
   if (!segmented_closed) {
     fprintf(stderr, "Error: Failed to perform binary closing\n");
-    exit(EXIT_FAILURE);
+    return 0;
   }
 
 #ifdef DEBUG_LOGGING
@@ -319,7 +339,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)segmented_closed);
   if (!corner_response) {
     fprintf(stderr, "Error: Failed to compute corner response\n");
-    exit(EXIT_FAILURE);
+    return 0;
   }
 
   // Extract `w` channel (error ellipse size) for visualization
@@ -327,7 +347,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   if (!w_channel) {
     fprintf(stderr, "Error: Failed to allocate memory for w channel\n");
     free((void *)corner_response);
-    exit(EXIT_FAILURE);
+    return 0;
   }
 
   for (uint32_t i = 0; i < out_width * out_height; i++) {
@@ -381,12 +401,28 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)corner_response);
   if (!peaks) {
     fprintf(stderr, "Error: Failed to find corner peaks\n");
-    exit(EXIT_FAILURE);
+    return 0;
+  }
+
+  // Without enough corners, use the corners of the whole image
+  if (peaks->count < 3) {
+    free(peaks->points);
+    free(peaks);
+    *corners = image_corners(width, height);
+    return 1;
   }
 
   // First, sort all corners to get them in clockwise order
-  Point2D *sorted_result = malloc(peaks->count * sizeof(Point2D));
-  sort_corners(
+  // (`sort_corners` adds the fourth corner if there are only 3)
+  uint32_t sorted_count = peaks->count < 4 ? 4 : peaks->count;
+  Point2D *sorted_result = malloc(sorted_count * sizeof(Point2D));
+  if (!sorted_result) {
+    fprintf(stderr, "Error: Failed to allocate memory for sorted corners\n");
+    free(peaks->points);
+    free(peaks);
+    return 0;
+  }
+  Corners all_sorted = sort_corners(
     width,
     height,
     out_width,
@@ -395,6 +431,15 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
     peaks->count,
     sorted_result
   );
+  // Peaks never lie on the image edge, all zeros means that sorting failed
+  if (all_sorted.tl_x == 0 && all_sorted.tl_y == 0 && all_sorted.br_x == 0 &&
+      all_sorted.br_y == 0) {
+    fprintf(stderr, "Error: Failed to sort corners\n");
+    free(sorted_result);
+    free(peaks->points);
+    free(peaks);
+    return 0;
+  }
 
   // Scale corners back to original image dimensions
   double scale_x = (double)width / out_width;
@@ -410,6 +455,15 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
       double angle_abs;
     } AngleIndex;
     AngleIndex *angle_indices = malloc(peaks->count * sizeof(AngleIndex));
+    if (!angles || !angle_indices) {
+      fprintf(stderr, "Error: Failed to allocate memory for corner angles\n");
+      free(angles);
+      free(angle_indices);
+      free(sorted_result);
+      free(peaks->points);
+      free(peaks);
+      return 0;
+    }
 
     for (uint32_t i = 0; i < peaks->count; i++) {
       // Get the three consecutive points for angle calculation
@@ -602,16 +656,35 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)resized_image);
 #endif
 
+  free(peaks->points);
   free(peaks);
-  return sorted_corners;
+  *corners = sorted_corners;
+  return 1;
+}
+
+/**
+ * Detect corners in the input image.
+ * Returns the corners of the whole image if the detection fails.
+ */
+Corners
+fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
+  Corners corners;
+  if (!detect_corners(image, width, height, &corners)) {
+    return image_corners(width, height);
+  }
+  return corners;
 }
 
 /**
  * Wrapper function that allocates corners on heap for FFI.
+ * Returns NULL if the detection fails.
  */
 Corners *
 fcv_detect_corners_ptr(const uint8_t *image, int32_t width, int32_t height) {
-  Corners corners = fcv_detect_corners(image, width, height);
+  Corners corners;
+  if (!detect_corners(image, width, height, &corners)) {
+    return NULL;
+  }
   Corners *result = malloc(sizeof(Corners));
   if (result == NULL) {
     return NULL;
diff --git a/src/extract_document.c b/src/extract_document.c
index 5d4f982..85d1520 100644
--- a/src/extract_document.c
+++ b/src/extract_document.c
@@ -22,7 +22,13 @@ uint8_t *fcv_extract_document(
   }
 
   // Step 1: Detect corners of the document
-  Corners detected_corners = fcv_detect_corners(data, width, height);
+  Corners *corners = fcv_detect_corners_ptr(data, width, height);
+  if (!corners) {
+    fprintf(stderr, "Error: Failed to detect corners\n");
+    return NULL;
+  }
+  Corners detected_corners = *corners;
+  free(corners);
 
   // Step 2: Define destination corners (rectangular output)
   Corners dst_corners = {
@@ -82,7 +88,13 @@ uint8_t *fcv_extract_document_auto(
   }
 
   // Step 1: Detect corners of the document
-  Corners detected_corners = fcv_detect_corners(data, width, height);
+  Corners *corners = fcv_detect_corners_ptr(data, width, height);
+  if (!corners) {
+    fprintf(stderr, "Error: Failed to detect corners\n");
+    return NULL;
+  }
+  Corners detected_corners = *corners;
+  free(corners);
 
   // Step 2: Calculate optimal output dimensions based on detected corners
   // Calculate distances between corners to determine aspect ratio
-- 
2.43.0


From 0d0f9a6164e1b240989b1bf6e0ef1afad8791b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:45 +0000
Subject: [PATCH 02/25] fix: perspective transform always returns a heap matrix
 the caller can free

It returned a pointer to a static matrix in fallback cases, which callers
(e.g. the Haskell bindings) free, while extract_document leaked a computed
identity; the allocation was not checked.
---
 src/extract_document.c     | 20 ++------------------
 src/perspectivetransform.c | 35 ++++++++++++++++++++++++++---------
 2 files changed, 28 insertions(+), 27 deletions(-)

diff --git a/src/extract_document.c b/src/extract_document.c
index 85d1520..08fe1df 100644
--- a/src/extract_document.c
+++ b/src/extract_document.c
@@ -62,15 +62,7 @@ uint8_t *fcv_extract_document(
     transform_matrix
   );
 
-  // Free the transformation matrix if it's not the identity matrix
-  if (transform_matrix &&
-      !(transform_matrix->m00 == 1.0 && transform_matrix->m01 == 0.0 &&
-        transform_matrix->m02 == 0.0 && transform_matrix->m10 == 0.0 &&
-        transform_matrix->m11 == 1.0 && transform_matrix->m12 == 0.0 &&
-        transform_matrix->m20 == 0.0 && transform_matrix->m21 == 0.0 &&
-        transform_matrix->m22 == 1.0)) {
-    free(transform_matrix);
-  }
+  free(transform_matrix);
 
   return result;
 }
@@ -163,15 +155,7 @@ uint8_t *fcv_extract_document_auto(
     transform_matrix
   );
 
-  // Free the transformation matrix if it's not the identity matrix
-  if (transform_matrix &&
-      !(transform_matrix->m00 == 1.0 && transform_matrix->m01 == 0.0 &&
-        transform_matrix->m02 == 0.0 && transform_matrix->m10 == 0.0 &&
-        transform_matrix->m11 == 1.0 && transform_matrix->m12 == 0.0 &&
-        transform_matrix->m20 == 0.0 && transform_matrix->m21 == 0.0 &&
-        transform_matrix->m22 == 1.0)) {
-    free(transform_matrix);
-  }
+  free(transform_matrix);
 
   return result;
 }
diff --git a/src/perspectivetransform.c b/src/perspectivetransform.c
index 5c4f496..351e1ba 100644
--- a/src/perspectivetransform.c
+++ b/src/perspectivetransform.c
@@ -100,9 +100,21 @@ int32_t solve_linear_system(double A[8][8], double b[8], double x[8]) {
   return 1;
 }
 
+/**
+ * Copy the matrix to the heap. Returns NULL if out of memory.
+ */
+static Matrix3x3 *new_matrix(Matrix3x3 matrix) {
+  Matrix3x3 *result = malloc(sizeof(Matrix3x3));
+  if (result) {
+    *result = matrix;
+  }
+  return result;
+}
+
 /**
  * Calculate the perspective transformation matrix
  * from the source and destination corner coordinates.
+ * The result must be freed by the caller and is NULL if out of memory.
  */
 Matrix3x3 *fcv_calculate_perspective_transform(
   Corners *src_corners,
@@ -114,11 +126,11 @@ Matrix3x3 *fcv_calculate_perspective_transform(
   double x[8] = {0};
 
   // Identity matrix as fallback
-  static Matrix3x3 identity = {1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0};
+  const Matrix3x3 identity = {1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0};
 
   if (!src_corners || !dst_corners) {
     log("Error: NULL pointer passed to calculate_perspective_transform\n");
-    return &identity;
+    return new_matrix(identity);
   }
 
 #ifdef DEBUG_LOGGING
@@ -159,7 +171,7 @@ Matrix3x3 *fcv_calculate_perspective_transform(
       isnan(dst_corners->br_x) || isnan(dst_corners->br_y) ||
       isnan(dst_corners->bl_x) || isnan(dst_corners->bl_y)) {
     log("Error: Invalid coordinates (NaN) detected\n");
-    return &identity;
+    return new_matrix(identity);
   }
 
   // Set up the system of equations
@@ -197,7 +209,7 @@ Matrix3x3 *fcv_calculate_perspective_transform(
     // Validate extracted coordinates
     if (isinf(srcX) || isinf(srcY) || isinf(dstX) || isinf(dstY)) {
       log("Error: Invalid coordinates (Inf) detected\n");
-      return &identity;
+      return new_matrix(identity);
     }
 
     // First four equations for x coordinates
@@ -220,19 +232,23 @@ Matrix3x3 *fcv_calculate_perspective_transform(
   log("Solve the system of equations …\n");
   if (!solve_linear_system(A, b, x)) {
     log("Failed to solve system, returning identity matrix\n");
-    return &identity;
+    return new_matrix(identity);
   }
 
   // Validate solution
   for (int32_t i = 0; i < 8; i++) {
     if (isnan(x[i]) || isinf(x[i]) || fabs(x[i]) > 1e6) {
       log("Error: Invalid solution values detected\n");
-      return &identity;
+      return new_matrix(identity);
     }
   }
 
-  Matrix3x3 *result = malloc(sizeof(Matrix3x3));
-  *result = (Matrix3x3){x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], 1.0};
+  Matrix3x3 *result = new_matrix(
+    (Matrix3x3){x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], 1.0}
+  );
+  if (!result) {
+    return NULL;
+  }
 
 #ifdef DEBUG_LOGGING
   fprintf(stderr, "Result matrix:\n");
@@ -249,7 +265,8 @@ Matrix3x3 *fcv_calculate_perspective_transform(
       isinf(result->m10) || isinf(result->m11) || isinf(result->m12) ||
       isinf(result->m20) || isinf(result->m21) || isinf(result->m22)) {
     log("Error: Invalid values in result matrix\n");
-    return &identity;
+    free(result);
+    return new_matrix(identity);
   }
 
   return result;
-- 
2.43.0


From 7fc178549f1b8b090ffd9a5bbf9e9901b7506c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:45 +0000
Subject: [PATCH 03/25] fix: applying a matrix no longer modifies the caller's
 matrix

A 180 degree matrix was patched in place for the current image size, so using
it again for another size gave a different result.
---
 src/perspectivetransform.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/perspectivetransform.c b/src/perspectivetransform.c
index 351e1ba..78b8f87 100644
--- a/src/perspectivetransform.c
+++ b/src/perspectivetransform.c
@@ -303,11 +303,12 @@ uint8_t *fcv_apply_matrix_3x3(
     return NULL;
   }
 
-  // Patch flip matrix if needed
-  if (fabs(tmat->m00 + 1.0) < 1e-9 && fabs(tmat->m11 + 1.0) < 1e-9 &&
-      tmat->m02 == 0.0 && tmat->m12 == 0.0) {
-    tmat->m02 = in_width - 1;
-    tmat->m12 = in_height - 1;
+  // Patch flip matrix if needed (without changing the caller's matrix)
+  Matrix3x3 mat = *tmat;
+  if (fabs(mat.m00 + 1.0) < 1e-9 && fabs(mat.m11 + 1.0) < 1e-9 &&
+      mat.m02 == 0.0 && mat.m12 == 0.0) {
+    mat.m02 = in_width - 1;
+    mat.m12 = in_height - 1;
   }
 
   uint8_t *out_data = calloc(out_pixels * 4, sizeof(uint8_t));
@@ -320,13 +321,13 @@ uint8_t *fcv_apply_matrix_3x3(
   for (int32_t out_y = 0; out_y < out_height; ++out_y) {
     for (int32_t out_x = 0; out_x < out_width; ++out_x) {
       // Apply the inverse transformation to find the corresponding source pixel
-      double w = tmat->m20 * out_x + tmat->m21 * out_y + tmat->m22;
+      double w = mat.m20 * out_x + mat.m21 * out_y + mat.m22;
       if (fabs(w) < 1e-10) {
         continue; // Skip if w is too close to zero
       }
 
-      double srcX = (tmat->m00 * out_x + tmat->m01 * out_y + tmat->m02) / w;
-      double srcY = (tmat->m10 * out_x + tmat->m11 * out_y + tmat->m12) / w;
+      double srcX = (mat.m00 * out_x + mat.m01 * out_y + mat.m02) / w;
+      double srcY = (mat.m10 * out_x + mat.m11 * out_y + mat.m12) / w;
 
       // Convert source coordinates to integers
       int32_t x0 = (int32_t)floor(srcX);
-- 
2.43.0


From a31ffce2d4b09b1c60c36f55328e72a7eb32e59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:08 +0000
Subject: [PATCH 04/25] fix: trimming keeps the dimensions when it fails

The caller's width and height were updated even if no trimmed image could be
allocated, so they no longer described the caller's image.
---
 src/trim.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/trim.c b/src/trim.c
index 63680ee..5d43ad0 100644
--- a/src/trim.c
+++ b/src/trim.c
@@ -191,8 +191,10 @@ uint8_t *fcv_trim(
     fcv_crop(w, h, channels, data, left, top, new_width, new_height);
 
   // Update dimensions
-  *width = (int32_t)new_width;
-  *height = (int32_t)new_height;
+  if (trimmed_data) {
+    *width = (int32_t)new_width;
+    *height = (int32_t)new_height;
+  }
 
   return trimmed_data;
 }
@@ -359,8 +361,10 @@ uint8_t *fcv_trim_threshold(
     fcv_crop(w, h, channels, data, left, top, new_width, new_height);
 
   // Update dimensions
-  *width = (int32_t)new_width;
-  *height = (int32_t)new_height;
+  if (trimmed_data) {
+    *width = (int32_t)new_width;
+    *height = (int32_t)new_height;
+  }
 
   return trimmed_data;
 }
-- 
2.43.0


From 8162208be4fa563213bdb99a2ace4c194e05843a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:08 +0000
Subject: [PATCH 05/25] fix: Foerstner corner response of images smaller than
 the kernel

The unsigned loop bound wrapped around, and the smoothing read and wrote far
outside its buffers.
---
 src/foerstner_corner.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/foerstner_corner.c b/src/foerstner_corner.c
index 9743a2f..4ca6e18 100644
--- a/src/foerstner_corner.c
+++ b/src/foerstner_corner.c
@@ -110,8 +110,8 @@ uint8_t *fcv_foerstner_corner(
   }
 
   // Simple box filter smoothing
-  for (uint32_t y = half_kernel; y < height - half_kernel; y++) {
-    for (uint32_t x = half_kernel; x < width - half_kernel; x++) {
+  for (uint32_t y = half_kernel; y + half_kernel < height; y++) {
+    for (uint32_t x = half_kernel; x + half_kernel < width; x++) {
       uint32_t idx = y * width + x;
       double sum_xx = 0.0, sum_xy = 0.0, sum_yy = 0.0;
       int32_t count = 0;
-- 
2.43.0


From 2a40a1c1d54e870ac4a5eb41f0279db3133c5b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:08 +0000
Subject: [PATCH 06/25] fix: Sobel edge detection of RGB images reads 3 bytes
 per pixel

It read them as RGBA, past the end of the image.
---
 src/sobel_edge_detection.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/sobel_edge_detection.c b/src/sobel_edge_detection.c
index 755e692..82b32b5 100644
--- a/src/sobel_edge_detection.c
+++ b/src/sobel_edge_detection.c
@@ -57,8 +57,22 @@ uint8_t *fcv_sobel_edge_detection(
     grayscale_data = (uint8_t *)data;
     allocated_grayscale = false;
   }
+  else if (channels == 3) {
+    // RGB input has no alpha channel to skip
+    grayscale_data = malloc(img_length_px);
+    if (!grayscale_data) {
+      return NULL;
+    }
+    for (size_t i = 0; i < img_length_px; i++) {
+      const uint8_t *pixel = &data[i * 3];
+      grayscale_data[i] = (uint8_t)((pixel[0] * R_WEIGHT + pixel[1] * G_WEIGHT +
+                                     pixel[2] * B_WEIGHT) >>
+                                    8);
+    }
+    allocated_grayscale = true;
+  }
   else {
-    // Multi-channel input, convert to grayscale
+    // RGBA input, convert to grayscale
     grayscale_data = fcv_rgba_to_grayscale(width, height, data);
     if (!grayscale_data) {
       return NULL;
-- 
2.43.0


From 585d53b4f61e00be8cb9309d76be81d2637677d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:04 +0000
Subject: [PATCH 07/25] fix: the CLI reports running out of memory while
 parsing a pipeline

Allocations of the pipeline, its growth and parameter copies were used
unchecked.
---
 src/cli.c | 53 +++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 2 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 12332ec..b52f330 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -50,6 +50,7 @@ typedef struct {
   PipelineOp *ops;
   int32_t count;
   int32_t capacity;
+  int32_t failed; // An operation could not be added
 } Pipeline;
 
 void print32_t_usage(const char *program_name) {
@@ -148,9 +149,17 @@ void print32_t_usage(const char *program_name) {
 
 Pipeline *create_pipeline(void) {
   Pipeline *p = malloc(sizeof(Pipeline));
+  if (!p) {
+    return NULL;
+  }
   p->capacity = 8;
   p->count = 0;
+  p->failed = 0;
   p->ops = malloc(sizeof(PipelineOp) * p->capacity);
+  if (!p->ops) {
+    free(p);
+    return NULL;
+  }
   return p;
 }
 
@@ -186,9 +195,18 @@ void add_operation(
   const char *param_str,
   int32_t has_string_param
 ) {
+  if (p->failed) {
+    return;
+  }
   if (p->count >= p->capacity) {
+    PipelineOp *ops = realloc(p->ops, sizeof(PipelineOp) * p->capacity * 2);
+    if (!ops) {
+      fprintf(stderr, "Error: out of memory\n");
+      p->failed = 1;
+      return;
+    }
+    p->ops = ops;
     p->capacity *= 2;
-    p->ops = realloc(p->ops, sizeof(PipelineOp) * p->capacity);
   }
 
   strncpy(
@@ -442,6 +460,11 @@ int32_t parse_pipeline(
 
             // Parse position in format "x×y" or "xxy"
             char *pos_copy = strdup(position_str);
+            if (!pos_copy) {
+              fprintf(stderr, "Error: out of memory\n");
+              free(combined);
+              return 0;
+            }
             char *x_pos = strchr(pos_copy, 'x');
             if (x_pos) {
               *x_pos = '\0';
@@ -518,6 +541,11 @@ int32_t parse_pipeline(
 
             // Parse position in format "x×y" or "xxy"
             char *pos_copy = strdup(position_str);
+            if (!pos_copy) {
+              fprintf(stderr, "Error: out of memory\n");
+              free(combined);
+              return 0;
+            }
             char *x_pos = strchr(pos_copy, 'x');
             if (x_pos) {
               *x_pos = '\0';
@@ -634,6 +662,11 @@ int32_t parse_pipeline(
       else if (strcmp(piece, "extract_document_to") == 0) {
         // Parse output dimensions in format "widthxheight"
         char *params_copy = strdup(params_str);
+        if (!params_copy) {
+          fprintf(stderr, "Error: out of memory\n");
+          free(combined);
+          return 0;
+        }
         char *x_pos = strchr(params_copy, 'x');
         if (x_pos) {
           *x_pos = '\0';
@@ -806,7 +839,7 @@ int32_t parse_pipeline(
   }
 
   free(combined);
-  return 1;
+  return !pipeline->failed;
 }
 
 uint8_t *apply_operation(
@@ -843,6 +876,9 @@ uint8_t *apply_operation(
     if (has_string_param) {
       // Parse new resize formats: 50%, 50%x80%, 200x300
       char *param_copy = strdup(param_str);
+      if (!param_copy) {
+        return NULL;
+      }
       char *x_pos = strchr(param_copy, 'x');
 
       if (x_pos) {
@@ -995,6 +1031,9 @@ uint8_t *apply_operation(
     }
     // Parse color and coordinates from param_str
     char *param_copy = strdup(param_str);
+    if (!param_copy) {
+      return NULL;
+    }
     char *color = strtok(param_copy, " ");
     double center_x = param2;
     double center_y = param3;
@@ -1029,6 +1068,9 @@ uint8_t *apply_operation(
     }
     // Parse color and coordinates from param_str
     char *param_copy = strdup(param_str);
+    if (!param_copy) {
+      return NULL;
+    }
     char *color = strtok(param_copy, " ");
     double center_x = param2;
     double center_y = param3;
@@ -1067,6 +1109,9 @@ uint8_t *apply_operation(
 
     // Parse marker coordinates from param_str: "x1×y1 x2×y2 ..."
     char *param_copy = strdup(param_str);
+    if (!param_copy) {
+      return NULL;
+    }
 
     // Count number of markers by counting spaces + 1
     int32_t num_markers = 1;
@@ -1540,6 +1585,10 @@ int32_t main(int32_t argc, char *argv[]) {
 
   // Parse pipeline from arguments between input and output
   Pipeline *pipeline = create_pipeline();
+  if (!pipeline) {
+    fprintf(stderr, "Error: out of memory\n");
+    return 1;
+  }
   int32_t pipeline_end_idx = is_detect_corners_only ? argc : argc - 1;
   if (!parse_pipeline(argc, argv, 2, pipeline_end_idx, pipeline)) {
     free_pipeline(pipeline);
-- 
2.43.0


From 1f1f75bcfae52837d90568767a796014fd023c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:33 +0000
Subject: [PATCH 08/25] fix: the CLI rejects parameters it would have to cut
 off

Parameters of more than 63 characters were truncated silently, e.g. the last
watershed markers were dropped or changed.
---
 src/cli.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cli.c b/src/cli.c
index b52f330..fdfea73 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -225,6 +225,11 @@ void add_operation(
   p->ops[p->count].has_param4 = has_param4;
 
   if (has_string_param && param_str) {
+    if (strlen(param_str) >= sizeof(p->ops[p->count].param_str)) {
+      fprintf(stderr, "Error: parameter of '%s' is too long\n", op);
+      p->failed = 1;
+      return;
+    }
     strncpy(
       p->ops[p->count].param_str,
       param_str,
-- 
2.43.0


From 0baa4c84f355f0410e8ca6c5b78ba7c45560089e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:33 +0000
Subject: [PATCH 09/25] fix: the CLI fails if the EXIF orientation cannot be
 applied

When out of memory it went on with the unrotated image but swapped dimensions.
---
 src/cli.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index fdfea73..0a04569 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -1658,10 +1658,14 @@ int32_t main(int32_t argc, char *argv[]) {
         break;
       }
 
-      if (rotated_data) {
+      if (!rotated_data) {
+        fprintf(stderr, "Error: Could not apply EXIF orientation\n");
         stbi_image_free(image_data);
-        image_data = rotated_data;
+        free_pipeline(pipeline);
+        return 1;
       }
+      stbi_image_free(image_data);
+      image_data = rotated_data;
     }
   }
 
-- 
2.43.0


From 0b0fabe00510a0d18d47fce862b8b28f79a2e0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:33 +0000
Subject: [PATCH 10/25] fix: the CLI fails if the input or its EXIF data cannot
 be read

An I/O error was taken for the end of the file, so a partly read image was
processed, or a rotated photo was treated as unrotated, as if all was well.
---
 include/exif.h |  3 ++-
 src/cli.c      | 22 +++++++++++++++++++++-
 src/exif.c     | 25 ++++++++++++++++---------
 3 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/include/exif.h b/include/exif.h
index 5b7c4f9..30349c0 100644
--- a/include/exif.h
+++ b/include/exif.h
@@ -8,6 +8,7 @@
  * Get EXIF orientation from a JPEG file.
  *
  * @param filename Path to the JPEG file.
- * @return Orientation value (1-8), or 1 if not found or error.
+ * @return Orientation value (1-8), 1 if not found, or -1 if the file could not
+ *         be read.
  */
 int32_t fcv_get_exif_orientation(char const *filename);
diff --git a/src/cli.c b/src/cli.c
index 0a04569..e883605 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -1607,7 +1607,17 @@ int32_t main(int32_t argc, char *argv[]) {
   }
 
   int32_t width, height, channels;
-  uint8_t *image_data = stbi_load(input_path, &width, &height, &channels, 4);
+  uint8_t *image_data = NULL;
+  FILE *input_file = fopen(input_path, "rb");
+  if (input_file) {
+    image_data = stbi_load_from_file(input_file, &width, &height, &channels, 4);
+    // The decoders take a read error for the end of the file
+    if (image_data && ferror(input_file)) {
+      stbi_image_free(image_data);
+      image_data = NULL;
+    }
+    fclose(input_file);
+  }
 
   if (!image_data) {
     fprintf(stderr, "Error: Could not load image '%s'\n", input_path);
@@ -1620,6 +1630,16 @@ int32_t main(int32_t argc, char *argv[]) {
   if (ext_in && (strcmp(ext_in, ".jpg") == 0 || strcmp(ext_in, ".jpeg") == 0 ||
                  strcmp(ext_in, ".JPG") == 0 || strcmp(ext_in, ".JPEG") == 0)) {
     int32_t orientation = fcv_get_exif_orientation(input_path);
+    if (orientation < 0) {
+      fprintf(
+        stderr,
+        "Error: Could not read EXIF orientation of '%s'\n",
+        input_path
+      );
+      stbi_image_free(image_data);
+      free_pipeline(pipeline);
+      return 1;
+    }
     if (orientation > 1 && orientation <= 8) {
       fprintf(stderr, "Applying EXIF orientation: %d\n", orientation);
       uint8_t *rotated_data = NULL;
diff --git a/src/exif.c b/src/exif.c
index 50415a2..04ebbcd 100644
--- a/src/exif.c
+++ b/src/exif.c
@@ -28,16 +28,10 @@ static uint32_t read_u32(FILE *file, int is_little_endian) {
   return (uint32_t)((buf[0] << 24) | (buf[1] << 16) | (buf[2] << 8) | buf[3]);
 }
 
-int32_t fcv_get_exif_orientation(char const *filename) {
-  FILE *file = fopen(filename, "rb");
-  if (!file) {
-    return 1;
-  }
-
+static int32_t read_orientation(FILE *file) {
   uint8_t header[2];
   if (fread(header, 1, 2, file) != 2 || header[0] != 0xFF ||
       header[1] != 0xD8) {
-    fclose(file);
     return 1;
   }
 
@@ -95,7 +89,6 @@ int32_t fcv_get_exif_orientation(char const *filename) {
 
         if (tag == 0x0112) { // Orientation
           uint16_t orientation = read_u16(file, is_little_endian);
-          fclose(file);
           return (int32_t)orientation;
         }
         else {
@@ -109,6 +102,20 @@ int32_t fcv_get_exif_orientation(char const *filename) {
     }
   }
 
-  fclose(file);
   return 1;
 }
+
+int32_t fcv_get_exif_orientation(char const *filename) {
+  FILE *file = fopen(filename, "rb");
+  if (!file) {
+    return -1;
+  }
+
+  int32_t orientation = read_orientation(file);
+  if (ferror(file)) {
+    orientation = -1;
+  }
+
+  fclose(file);
+  return orientation;
+}
-- 
2.43.0


From 48c0c2af3ff5b26ba717e49d3617d92558e6e56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:33 +0000
Subject: [PATCH 11/25] fix: the CLI fails if the output could not be written
 completely

stb_image_write ignores errors from writing and closing the file, so a full
disk left a truncated image behind a success message and exit status 0.
---
 src/cli.c | 54 ++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 48 insertions(+), 6 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index e883605..927d215 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -1567,6 +1567,51 @@ uint8_t *execute_pipeline(
   return current_data;
 }
 
+typedef struct {
+  const char *path;
+  FILE *file;
+  int32_t failed;
+} OutputFile;
+
+/* Callback for stb_image_write, opens the file once there is data for it */
+static void write_output(void *context, void *data, int size) {
+  OutputFile *output = context;
+  if (!output->file && !output->failed) {
+    output->file = fopen(output->path, "wb");
+    output->failed = !output->file;
+  }
+  if (!output->failed && fwrite(data, 1, size, output->file) != (size_t)size) {
+    output->failed = 1;
+  }
+}
+
+/* Returns 1 if the complete image was saved, 0 on failure */
+static int32_t save_image(
+  const char *path,
+  int32_t width,
+  int32_t height,
+  const uint8_t *data,
+  int32_t as_jpeg
+) {
+  OutputFile output = {.path = path, .file = NULL, .failed = 0};
+  int32_t encoded =
+    as_jpeg
+      ? stbi_write_jpg_to_func(write_output, &output, width, height, 4, data, 90)
+      : stbi_write_png_to_func(
+          write_output,
+          &output,
+          width,
+          height,
+          4,
+          data,
+          width * 4
+        );
+  if (output.file && fclose(output.file) != 0) {
+    output.failed = 1;
+  }
+  return encoded && output.file && !output.failed;
+}
+
 int32_t main(int32_t argc, char *argv[]) {
   if (argc < 3) {
     print32_t_usage(argv[0]);
@@ -1714,8 +1759,7 @@ int32_t main(int32_t argc, char *argv[]) {
     int32_t write_result;
     const char *ext = strrchr(output_path, '.');
     if (ext && strcmp(ext, ".png") == 0) {
-      write_result =
-        stbi_write_png(output_path, width, height, 4, result_data, width * 4);
+      write_result = save_image(output_path, width, height, result_data, 0);
     }
     else if (ext && (strcmp(ext, ".jpg") == 0 || strcmp(ext, ".jpeg") == 0)) {
       if (pipeline_has_binarization(pipeline)) {
@@ -1726,12 +1770,10 @@ int32_t main(int32_t argc, char *argv[]) {
           "Please use PNG format instead.\n"
         );
       }
-      write_result =
-        stbi_write_jpg(output_path, width, height, 4, result_data, 90);
+      write_result = save_image(output_path, width, height, result_data, 1);
     }
     else {
-      write_result =
-        stbi_write_png(output_path, width, height, 4, result_data, width * 4);
+      write_result = save_image(output_path, width, height, result_data, 0);
     }
 
     if (!write_result) {
-- 
2.43.0


From 60bab3e99c917317670a80b8352dd02ad12ccf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:33 +0000
Subject: [PATCH 12/25] fix: the CLI reports running out of memory while
 encoding a PNG

stb_image_write aborts (or, without assertions, writes to a null pointer) if it
cannot grow its compression buffers.
---
 src/cli.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/cli.c b/src/cli.c
index 927d215..5c5bae8 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -13,6 +13,19 @@
 #ifndef DEBUG_LOGGING
 #define STB_IMAGE_WRITE_IMPLEMENTATION
 #endif
+
+// The encoder does not handle failures to grow its buffers
+static void *realloc_or_exit(void *pointer, size_t size) {
+  void *result = realloc(pointer, size);
+  if (!result) {
+    fprintf(stderr, "Error: out of memory while encoding image\n");
+    exit(EXIT_FAILURE);
+  }
+  return result;
+}
+#define STBIW_MALLOC(size) malloc(size)
+#define STBIW_REALLOC(pointer, size) realloc_or_exit(pointer, size)
+#define STBIW_FREE(pointer) free(pointer)
 #include "stb_image_write.h"
 
 #include "binary_closing_disk.h"
-- 
2.43.0


From 4cf6a97a9710dbf90218a9ac41fe5435b2d8e637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:33 +0000
Subject: [PATCH 13/25] fix: the CLI fails if detected corners cannot be
 written

Nothing noticed when standard output was full or closed.
---
 src/cli.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/cli.c b/src/cli.c
index 5c5bae8..6c21aae 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -1766,6 +1766,17 @@ int32_t main(int32_t argc, char *argv[]) {
     return 1;
   }
 
+  // Detected corners are reported on standard output
+  if (fflush(stdout) != 0 || ferror(stdout)) {
+    fprintf(stderr, "Error: Could not write to standard output\n");
+    stbi_image_free(image_data);
+    if (result_data != image_data) {
+      free(result_data);
+    }
+    free_pipeline(pipeline);
+    return 1;
+  }
+
   if (!is_detect_corners_only) {
     fprintf(stderr, "Final output dimensions: %dx%d\n", width, height);
 
-- 
2.43.0


From 3e14fb4014d26f1007c32e3c2a6db0de3f6c1a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:46 +0000
Subject: [PATCH 14/25] fix: looking for the EXIF orientation ends for cut off
 files

The length of a segment at the end of the file was read as 0, so the
search went back to the start of the same segment forever.
---
 src/exif.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exif.c b/src/exif.c
index 04ebbcd..d28bc6e 100644
--- a/src/exif.c
+++ b/src/exif.c
@@ -46,6 +46,9 @@ static int32_t read_orientation(FILE *file) {
     }
 
     uint16_t size = read_u16(file, 0); // Markers are always big-endian
+    if (size < 2) { // Damaged or cut off (seeking back would never end)
+      break;
+    }
 
     if (marker[1] == 0xE1) { // APP1 - EXIF
       uint8_t exif_header[6];
-- 
2.43.0


From 56856228f50a3b06b5341074c9865ac82215e47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:46 +0000
Subject: [PATCH 15/25] fix: resizing to absolute dimensions does not lose a
 pixel to rounding

E.g. resizing an image 49 pixels wide to 1x1 failed, as 1.0 / 49 * 49 < 1.
---
 src/cli.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 6c21aae..bea3e84 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -860,6 +860,15 @@ int32_t parse_pipeline(
   return !pipeline->failed;
 }
 
+/**
+ * The factor which resizes `size` to `target`.
+ * A product slightly below the target would lose one pixel.
+ */
+static double factor_for_size(int32_t size, double target) {
+  double factor = target / size;
+  return size * factor < target ? nextafter(factor, INFINITY) : factor;
+}
+
 uint8_t *apply_operation(
   int32_t *width,
   int32_t *height,
@@ -913,8 +922,8 @@ uint8_t *apply_operation(
         }
         else {
           // Absolute size format: 200x300
-          resize_x = atof(first_part) / *width;
-          resize_y = atof(second_part) / *height;
+          resize_x = factor_for_size(*width, atof(first_part));
+          resize_y = factor_for_size(*height, atof(second_part));
         }
       }
       else if (strchr(param_copy, '%')) {
-- 
2.43.0


From 661c65fad761b3c9a17fb6856b103f483f3d88cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:46 +0000
Subject: [PATCH 16/25] fix: watershed markers can be quoted as shown in the
 usage examples

The quote made the x coordinate of the first marker 0.
---
 src/cli.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cli.c b/src/cli.c
index bea3e84..d828990 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -627,6 +627,13 @@ int32_t parse_pipeline(
       }
       else if (strcmp(piece, "watershed") == 0) {
         /* Watershed operation requires: x1×y1,x2×y2,... */
+        /* optional surrounding quotes, as shown in the usage examples */
+        size_t params_len = strlen(params_str);
+        if (params_len >= 2 && params_str[0] == '\'' &&
+            params_str[params_len - 1] == '\'') {
+          params_str[params_len - 1] = '\0';
+          params_str = trim_whitespace(params_str + 1);
+        }
         add_operation(
           pipeline,
           piece,
-- 
2.43.0


From 73b8cf766f5148dc006308f4008f2d5038e66f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:33 +0000
Subject: [PATCH 17/25] fix: damaged input files do not show leftover memory in
 the output

---
 include/stb_image.h | 4 ++--
 src/cli.c           | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/stb_image.h b/include/stb_image.h
index 9eedabe..3ccd8ee 100644
--- a/include/stb_image.h
+++ b/include/stb_image.h
@@ -5077,7 +5077,7 @@ static void stbi__de_iphone(stbi__png *z)
 
 static int stbi__parse_png_file(stbi__png *z, int scan, int req_comp)
 {
-   stbi_uc palette[1024], pal_img_n=0;
+   stbi_uc palette[1024]={0}, pal_img_n=0;
    stbi_uc has_trans=0, tc[3]={0};
    stbi__uint16 tc16[3];
    stbi__uint32 ioff=0, idata_limit=0, i, pal_len=0;
@@ -5532,7 +5532,7 @@ static void *stbi__bmp_load(stbi__context *s, int *x, int *y, int *comp, int req
 {
    stbi_uc *out;
    unsigned int mr=0,mg=0,mb=0,ma=0, all_a;
-   stbi_uc pal[256][4];
+   stbi_uc pal[256][4]={{0}};
    int psize=0,i,j,width;
    int flip_vertically, pad, target;
    stbi__bmp_data info;
diff --git a/src/cli.c b/src/cli.c
index d828990..09004f1 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -7,6 +7,10 @@
 #include <time.h>
 
 #define STB_IMAGE_IMPLEMENTATION
+// Pixels which a damaged file does not contain must not show leftover memory
+#define STBI_MALLOC(size) calloc(1, size)
+#define STBI_REALLOC(pointer, size) realloc(pointer, size)
+#define STBI_FREE(pointer) free(pointer)
 #include "stb_image.h"
 
 // Already included in corner_detection.c when debugging
-- 
2.43.0


From 65d0ab63c3282e4746903781e6599a1247aa243f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:54 +0000
Subject: [PATCH 18/25] fix: Haskell morphology functions return a whole RGBA
 image

The C functions take and return one byte per pixel, so the vector
reached beyond the end of the returned buffer.
---
 bindings/flatcv-hs/src/FlatCV.hs | 35 ++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/bindings/flatcv-hs/src/FlatCV.hs b/bindings/flatcv-hs/src/FlatCV.hs
index c62d8d1..2830bb1 100644
--- a/bindings/flatcv-hs/src/FlatCV.hs
+++ b/bindings/flatcv-hs/src/FlatCV.hs
@@ -138,6 +138,7 @@ module FlatCV
   , rotate270CWPtr
   ) where
 
+import Control.Exception (bracket)
 import Control.Monad (when)
 import Data.Int (Int32)
 import Data.Text (Text)
@@ -285,6 +286,11 @@ withImageData input action outputLen = do
     when (outPtr == nullPtr) $ error "FlatCV: operation failed (null pointer returned)"
     makeVector outPtr (fromIntegral outputLen)
 
+-- Helper to free an intermediate C buffer after using it
+withBuffer :: IO (Ptr Word8) -> (Ptr Word8 -> IO (Ptr Word8)) -> IO (Ptr Word8)
+withBuffer create action = bracket create free $ \ptr ->
+  if ptr == nullPtr then return nullPtr else action ptr
+
 --------------------------------------------------------------------------------
 -- Color conversion
 --------------------------------------------------------------------------------
@@ -359,29 +365,42 @@ foerstnerCorner width height sigma input =
 -- Morphological operations
 --------------------------------------------------------------------------------
 
+-- The C functions process single-channel images:
+-- Convert from RGBA to grayscale before and back to RGBA afterwards
+withMorphology
+  :: (Ptr Word8 -> Int32 -> Int32 -> Int32 -> IO (Ptr Word8))
+  -> Int32 -> Int32 -> Int32 -> V.Vector Word8 -> IO (V.Vector Word8)
+withMorphology operation width height radius input = do
+  when (width <= 0 || height <= 0) $
+    error "FlatCV: operation failed (invalid image size)"
+  let w = fromIntegral width
+      h = fromIntegral height
+  withImageData input
+    (\p ->
+      withBuffer (Raw.fcv_rgba_to_grayscale w h p) $ \gray ->
+        withBuffer (operation gray width height radius) $
+          Raw.fcv_single_to_multichannel w h)
+    (w * h * 4)
+
 -- | Binary dilation with disk structuring element
 binaryDilationDisk :: Int32 -> Int32 -> Int32 -> V.Vector Word8 -> IO (V.Vector Word8)
 binaryDilationDisk width height radius input =
-  withImageData input (\p -> Raw.fcv_binary_dilation_disk p width height radius)
-    (fromIntegral $ width * height * 4)
+  withMorphology Raw.fcv_binary_dilation_disk width height radius input
 
 -- | Binary erosion with disk structuring element
 binaryErosionDisk :: Int32 -> Int32 -> Int32 -> V.Vector Word8 -> IO (V.Vector Word8)
 binaryErosionDisk width height radius input =
-  withImageData input (\p -> Raw.fcv_binary_erosion_disk p width height radius)
-    (fromIntegral $ width * height * 4)
+  withMorphology Raw.fcv_binary_erosion_disk width height radius input
 
 -- | Binary closing (dilation followed by erosion)
 binaryClosingDisk :: Int32 -> Int32 -> Int32 -> V.Vector Word8 -> IO (V.Vector Word8)
 binaryClosingDisk width height radius input =
-  withImageData input (\p -> Raw.fcv_binary_closing_disk p width height radius)
-    (fromIntegral $ width * height * 4)
+  withMorphology Raw.fcv_binary_closing_disk width height radius input
 
 -- | Binary opening (erosion followed by dilation)
 binaryOpeningDisk :: Int32 -> Int32 -> Int32 -> V.Vector Word8 -> IO (V.Vector Word8)
 binaryOpeningDisk width height radius input =
-  withImageData input (\p -> Raw.fcv_binary_opening_disk p width height radius)
-    (fromIntegral $ width * height * 4)
+  withMorphology Raw.fcv_binary_opening_disk width height radius input
 
 --------------------------------------------------------------------------------
 -- Geometric transforms
-- 
2.43.0


From db03ae2e4c1521279a583c3081eb64c9b7912ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:55 +0000
Subject: [PATCH 19/25] fix: Haskell convertToBinary returns a whole RGBA image

The C function returns one byte per pixel, so the vector reached
beyond the end of the returned buffer.
---
 bindings/flatcv-hs/src/FlatCV.hs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bindings/flatcv-hs/src/FlatCV.hs b/bindings/flatcv-hs/src/FlatCV.hs
index 2830bb1..3c4df8d 100644
--- a/bindings/flatcv-hs/src/FlatCV.hs
+++ b/bindings/flatcv-hs/src/FlatCV.hs
@@ -660,7 +660,10 @@ convertToBinary :: Int32 -> Int32 -> Text -> Text -> V.Vector Word8 -> IO (V.Vec
 convertToBinary width height fgHex bgHex input =
   withCString (T.unpack fgHex) $ \fgPtr ->
     withCString (T.unpack bgHex) $ \bgPtr ->
-      withImageData input (\p -> Raw.fcv_convert_to_binary p width height fgPtr bgPtr)
+      withImageData input
+        (\p ->
+          withBuffer (Raw.fcv_convert_to_binary p width height fgPtr bgPtr) $
+            Raw.fcv_single_to_multichannel (fromIntegral width) (fromIntegral height))
         (fromIntegral $ width * height * 4)
 
 --------------------------------------------------------------------------------
-- 
2.43.0


From 33425bd77827999729faaf7d5869b8ceb6bc4857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:55 +0000
Subject: [PATCH 20/25] fix: Haskell sobelEdgeDetection returns a whole image

The C function returns one byte per pixel, so the vector reached
beyond the end of the returned buffer for RGB and RGBA images.
---
 bindings/flatcv-hs/src/FlatCV.hs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/bindings/flatcv-hs/src/FlatCV.hs b/bindings/flatcv-hs/src/FlatCV.hs
index 3c4df8d..61ccd36 100644
--- a/bindings/flatcv-hs/src/FlatCV.hs
+++ b/bindings/flatcv-hs/src/FlatCV.hs
@@ -352,9 +352,20 @@ applyGlobalThreshold imgLen threshold input = do
 --------------------------------------------------------------------------------
 
 -- | Apply Sobel edge detection
+-- The output has the same number of channels as the input
 sobelEdgeDetection :: Word32 -> Word32 -> Word32 -> V.Vector Word8 -> IO (V.Vector Word8)
-sobelEdgeDetection width height channels input =
-  withImageData input (\p -> Raw.fcv_sobel_edge_detection width height channels p) (width * height * channels)
+sobelEdgeDetection width height channels input
+  | channels == 4 =
+      withImageData input
+        (\p -> withBuffer (sobel p) $ Raw.fcv_single_to_multichannel width height)
+        (width * height * 4)
+  | otherwise = do
+      edges <- withImageData input sobel (width * height)
+      return $ if channels == 1
+        then edges
+        else V.concatMap (V.replicate $ fromIntegral channels) edges
+  where
+    sobel = Raw.fcv_sobel_edge_detection width height channels
 
 -- | Foerstner corner detection with given sigma
 foerstnerCorner :: Word32 -> Word32 -> Double -> V.Vector Word8 -> IO (V.Vector Word8)
-- 
2.43.0


From 376523e37abe8f6ea8bd94dd9d6d2a3f842b6c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:55 +0000
Subject: [PATCH 21/25] fix: Haskell foerstnerCorner returns only the 2
 channels of the C result

---
 bindings/flatcv-hs/src/FlatCV.hs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/flatcv-hs/src/FlatCV.hs b/bindings/flatcv-hs/src/FlatCV.hs
index 61ccd36..76270de 100644
--- a/bindings/flatcv-hs/src/FlatCV.hs
+++ b/bindings/flatcv-hs/src/FlatCV.hs
@@ -368,9 +368,10 @@ sobelEdgeDetection width height channels input
     sobel = Raw.fcv_sobel_edge_detection width height channels
 
 -- | Foerstner corner detection with given sigma
+-- The input is a single-channel grayscale image. The output has 2 channels.
 foerstnerCorner :: Word32 -> Word32 -> Double -> V.Vector Word8 -> IO (V.Vector Word8)
 foerstnerCorner width height sigma input =
-  withImageData input (\p -> Raw.fcv_foerstner_corner width height p sigma) (width * height * 4)
+  withImageData input (\p -> Raw.fcv_foerstner_corner width height p sigma) (width * height * 2)
 
 --------------------------------------------------------------------------------
 -- Morphological operations
-- 
2.43.0


From c6999b387c84c3462cacae82d0b4038ad2aa68db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:55 +0000
Subject: [PATCH 22/25] fix: Haskell watershedSegmentation releases the markers
 when it fails

---
 bindings/flatcv-hs/src/FlatCV.hs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/bindings/flatcv-hs/src/FlatCV.hs b/bindings/flatcv-hs/src/FlatCV.hs
index 76270de..4e66945 100644
--- a/bindings/flatcv-hs/src/FlatCV.hs
+++ b/bindings/flatcv-hs/src/FlatCV.hs
@@ -149,8 +149,8 @@ import qualified Data.Vector.Storable.Mutable as MV
 import Foreign.C.String (withCString)
 import Foreign.C.Types (CUChar)
 import Foreign.ForeignPtr (newForeignPtr, FinalizerPtr, castForeignPtr)
-import Foreign.Marshal.Alloc (alloca, free, mallocBytes)
-import Foreign.Marshal.Array (pokeArray)
+import Foreign.Marshal.Alloc (alloca, free)
+import Foreign.Marshal.Array (withArrayLen)
 import Foreign.Ptr (Ptr, castPtr, nullPtr)
 import Foreign.Storable (Storable(..), peek, poke, sizeOf, alignment)
 import Text.Printf (printf)
@@ -629,16 +629,11 @@ generateHistogram width height channels input = do
 
 -- | Watershed segmentation with markers
 watershedSegmentation :: Word32 -> Word32 -> [Point2D] -> Bool -> V.Vector Word8 -> IO (V.Vector Word8)
-watershedSegmentation width height markers createBoundaries input = do
-  let numMarkers = fromIntegral $ length markers
-      markerSize = numMarkers * sizeOf (undefined :: Point2D)
-  markersPtr <- mallocBytes markerSize
-  pokeArray markersPtr markers
-  result <- withImageData input
-    (\p -> Raw.fcv_watershed_segmentation width height p (castPtr markersPtr) (fromIntegral numMarkers) createBoundaries)
-    (width * height * 4)
-  free markersPtr
-  return result
+watershedSegmentation width height markers createBoundaries input =
+  withArrayLen markers $ \numMarkers markersPtr ->
+    withImageData input
+      (\p -> Raw.fcv_watershed_segmentation width height p (castPtr markersPtr) (fromIntegral numMarkers) createBoundaries)
+      (width * height * 4)
 
 --------------------------------------------------------------------------------
 -- EXIF
-- 
2.43.0


From ac2e05cd241b5ac0a64ea80c090dbcbfaf8c164f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:14 +0000
Subject: [PATCH 23/25] fix: a JPEG file with 256 Huffman codes in a table does
 not abort the decoder

---
 include/stb_image.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stb_image.h b/include/stb_image.h
index 3ccd8ee..1c7c875 100644
--- a/include/stb_image.h
+++ b/include/stb_image.h
@@ -2121,7 +2121,9 @@ stbi_inline static int stbi__jpeg_huff_decode(stbi__jpeg *j, stbi__huffman *h)
    // wants to be compared against something shifted to have 16;
    // that way we don't need to shift inside the loop.
    temp = j->code_buffer >> 16;
-   for (k=FAST_BITS+1 ; ; ++k)
+   // (start at 8 bits: symbol 255 of a table with 256 symbols has at least that
+   // many, and is never in the fast table because 255 means "not there")
+   for (k=8 ; ; ++k)
       if (temp < h->maxcode[k])
          break;
    if (k == 17) {
-- 
2.43.0


From 53d4ae921d16a76fb052b6a5d8ddfbc2de455863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:14 +0000
Subject: [PATCH 24/25] fix: damaged HDR and TGA files do not show leftover
 memory in the output

---
 include/stb_image.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/stb_image.h b/include/stb_image.h
index 1c7c875..2474bd9 100644
--- a/include/stb_image.h
+++ b/include/stb_image.h
@@ -1674,6 +1674,7 @@ static int stbi__getn(stbi__context *s, stbi_uc *buffer, int n)
 
          count = (s->io.read)(s->io_user_data, (char*) buffer + blen, n - blen);
          res = (count == (n-blen));
+         if (!res) memset(buffer + blen + count, 0, n - blen - count);
          s->img_buffer = s->img_buffer_end;
          return res;
       }
@@ -1683,8 +1684,10 @@ static int stbi__getn(stbi__context *s, stbi_uc *buffer, int n)
       memcpy(buffer, s->img_buffer, n);
       s->img_buffer += n;
       return 1;
-   } else
+   } else {
+      memset(buffer, 0, n);
       return 0;
+   }
 }
 #endif
 
-- 
2.43.0


From 755d0c3fb91ddaa0c9810c319157a036c00047e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:14 +0000
Subject: [PATCH 25/25] fix: an input image without pixels is rejected

---
 src/cli.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 09004f1..29fb4f6 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -1689,8 +1689,9 @@ int32_t main(int32_t argc, char *argv[]) {
   FILE *input_file = fopen(input_path, "rb");
   if (input_file) {
     image_data = stbi_load_from_file(input_file, &width, &height, &channels, 4);
-    // The decoders take a read error for the end of the file
-    if (image_data && ferror(input_file)) {
+    // The decoders take a read error for the end of the file,
+    // and accept BMP files without any pixels
+    if (image_data && (ferror(input_file) || width < 1 || height < 1)) {
       stbi_image_free(image_data);
       image_data = NULL;
     }
-- 
2.43.0

