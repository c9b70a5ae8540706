#pragma once
#include <cstdint>
typedef struct { double x, y; } Point2D;
typedef struct { double tl_x, tl_y, tr_x, tr_y, br_x, br_y, bl_x, bl_y; } Corners;
typedef struct { double m[9]; } Matrix3x3;
typedef struct { Point2D *points; uint32_t count; } CornerPeaks;
typedef uint8_t *B;
typedef const uint8_t *CB;
#define API_LIST(X) \
  X(fcv_binary_dilation_disk, B, (CB, int32_t, int32_t, int32_t)) \
  X(fcv_binary_erosion_disk, B, (CB, int32_t, int32_t, int32_t)) \
  X(fcv_binary_closing_disk, B, (CB, int32_t, int32_t, int32_t)) \
  X(fcv_binary_opening_disk, B, (CB, int32_t, int32_t, int32_t)) \
  X(fcv_apply_gaussian_blur, B, (uint32_t, uint32_t, double, CB)) \
  X(fcv_grayscale, B, (uint32_t, uint32_t, CB)) \
  X(fcv_grayscale_stretch, B, (uint32_t, uint32_t, CB)) \
  X(fcv_apply_global_threshold, void, (uint32_t, B, uint8_t)) \
  X(fcv_otsu_threshold_rgba, B, (uint32_t, uint32_t, bool, CB)) \
  X(fcv_bw_smart, B, (uint32_t, uint32_t, bool, CB)) \
  X(fcv_resize, B, (uint32_t, uint32_t, double, double, uint32_t *, uint32_t *, CB)) \
  X(fcv_convert_to_binary, B, (CB, int32_t, int32_t, const char *, const char *)) \
  X(fcv_corner_peaks, CornerPeaks *, (uint32_t, uint32_t, CB, uint32_t, double, double)) \
  X(fcv_crop, B, (uint32_t, uint32_t, uint32_t, CB, uint32_t, uint32_t, uint32_t, uint32_t)) \
  X(fcv_draw_circle, void, (uint32_t, uint32_t, uint32_t, const char *, double, double, double, B)) \
  X(fcv_draw_disk, void, (uint32_t, uint32_t, uint32_t, const char *, double, double, double, B)) \
  X(fcv_add_border, B, (uint32_t, uint32_t, uint32_t, const char *, uint32_t, B, uint32_t *, uint32_t *)) \
  X(fcv_get_exif_orientation, int32_t, (const char *)) \
  X(fcv_extract_document, B, (uint32_t, uint32_t, CB, uint32_t, uint32_t)) \
  X(fcv_extract_document_auto, B, (uint32_t, uint32_t, CB, uint32_t *, uint32_t *)) \
  X(fcv_flip_x, B, (uint32_t, uint32_t, CB)) \
  X(fcv_flip_y, B, (uint32_t, uint32_t, CB)) \
  X(fcv_transpose, B, (uint32_t, uint32_t, CB)) \
  X(fcv_transverse, B, (uint32_t, uint32_t, CB)) \
  X(fcv_foerstner_corner, B, (uint32_t, uint32_t, CB, double)) \
  X(fcv_generate_histogram, B, (uint32_t, uint32_t, uint32_t, CB, uint32_t *, uint32_t *)) \
  X(fcv_parse_hex_color, void, (const char *, uint8_t *, uint8_t *, uint8_t *)) \
  X(fcv_calculate_perspective_transform, Matrix3x3 *, (Corners *, Corners *)) \
  X(fcv_apply_matrix_3x3, B, (int32_t, int32_t, B, int32_t, int32_t, Matrix3x3 *)) \
  X(fcv_detect_corners, Corners, (CB, int32_t, int32_t)) \
  X(fcv_detect_corners_ptr, Corners *, (CB, int32_t, int32_t)) \
  X(fcv_rgba_to_grayscale, B, (uint32_t, uint32_t, CB)) \
  X(fcv_rotate_90_cw, B, (uint32_t, uint32_t, CB)) \
  X(fcv_rotate_180, B, (uint32_t, uint32_t, CB)) \
  X(fcv_rotate_270_cw, B, (uint32_t, uint32_t, CB)) \
  X(fcv_single_to_multichannel, B, (uint32_t, uint32_t, CB)) \
  X(fcv_sobel_edge_detection, B, (uint32_t, uint32_t, uint32_t, CB)) \
  X(sort_corners, Corners, (uint32_t, uint32_t, uint32_t, uint32_t, Point2D *, uint32_t, Point2D *)) \
  X(fcv_trim, B, (int32_t *, int32_t *, uint32_t, CB)) \
  X(fcv_trim_threshold, B, (int32_t *, int32_t *, uint32_t, CB, double)) \
  X(fcv_watershed_segmentation, B, (uint32_t, uint32_t, CB, Point2D *, uint32_t, bool))
struct Api {
#define X(n, r, a) r (*n) a;
  API_LIST(X)
#undef X
  int (*sut_main)(int, char **);
};
