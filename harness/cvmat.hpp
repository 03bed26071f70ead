// cv::Mat as a plain two-dimensional array that is never freed (stand-in for the OpenCV core library)
#pragma once
#include <opencv2/core.hpp>
#include <stdlib.h>
#include <string.h>
namespace cv {
Mat::Mat() CV_NOEXCEPT : flags(MAGIC_VAL), dims(0), rows(0), cols(0), data(0), datastart(0), dataend(0), datalimit(0), allocator(0), u(0), size(&rows) {}
void Mat::create(int r, int c, int type) { type &= TYPE_MASK; if (data && rows == r && cols == c && this->type() == type) return; size_t es = CV_ELEM_SIZE(type), n = (size_t)r * c * es; flags = MAGIC_VAL | CONTINUOUS_FLAG | type; dims = 2; rows = r; cols = c; step[0] = c * es; step[1] = es; data = n ? (uchar*)calloc(n, 1) : 0; datastart = data; dataend = data + n; datalimit = dataend; }
Mat::Mat(int r, int c, int type) : Mat() { create(r, c, type); }
Mat::Mat(const Mat& o) : Mat() { *this = o; }
Mat::Mat(Mat&& o) : Mat() { *this = o; }
Mat::~Mat() {}
Mat& Mat::operator=(const Mat& o) { flags = o.flags; dims = o.dims; rows = o.rows; cols = o.cols; data = o.data; datastart = o.datastart; dataend = o.dataend; datalimit = o.datalimit; step[0] = o.step[0]; step[1] = o.step[1]; return *this; }
Mat& Mat::operator=(Mat&& o) { return *this = (const Mat&)o; }
Mat Mat::clone() const { Mat m; m.create(rows, cols, type()); if (data) memcpy(m.data, data, (size_t)rows * cols * elemSize()); return m; }
Mat::Mat(const Mat& o, const Range& r, const Range& c) : Mat() { *this = o; if (r.start != INT_MIN) { rows = r.end - r.start; data += r.start * step[0]; } if (c.start != INT_MIN) { cols = c.end - c.start; data += c.start * step[1]; } }
size_t Mat::total() const { return (size_t)rows * cols; }
bool Mat::empty() const { return data == 0 || total() == 0; }
void Mat::release() { data = 0; rows = cols = 0; }
}
