// Model of the parts of OpenCV that mlio's image reader uses. Matrices and
// their operations follow OpenCV's documentation; what imdecode() and resize()
// produce is up to the harness.
#pragma once

#include <cstddef>
#include <cstring>
#include <memory>
#include <stdexcept>
#include <string>

#define CV_8U 0
#define CV_MAKETYPE(d, c) ((d) + (((c)-1) << 3))
#define CV_16U 2
#define CV_8UC(n) CV_MAKETYPE(CV_8U, n)
#define CV_8UC1 CV_8UC(1)
#define CV_8UC3 CV_8UC(3)
#define CV_8UC4 CV_8UC(4)
#define CV_16UC(n) CV_MAKETYPE(CV_16U, n)

namespace cv {

class Exception : public std::exception {
public:
    const char *what() const noexcept override { return "OpenCV"; }
};

template<typename T>
struct Size_ {
    Size_() = default;
    Size_(T w, T h) : width{w}, height{h} {}
    T width{}, height{};
};
using Size = Size_<int>;

template<typename T>
struct Rect_ {
    Rect_(T x_, T y_, T w, T h) : x{x_}, y{y_}, width{w}, height{h} {}
    T x, y, width, height;
};
using Rect = Rect_<int>;

class Mat {
public:
    Mat() = default;
    Mat(int r, int c, int t) { create(r, c, t); }
    Mat(int r, int c, int t, void *d) : rows{r}, cols{c}, type_{t}, data{static_cast<unsigned char *>(d)}
    {
        step = static_cast<std::size_t>(c) * elemSize();
    }
    void create(int r, int c, int t)
    {
        if (rows == r && cols == c && type_ == t && data)
            return;
        if (r < 0 || c < 0)
            throw Exception{};
        rows = r;
        cols = c;
        type_ = t;
        step = static_cast<std::size_t>(c) * elemSize();
        own_ = std::shared_ptr<unsigned char>(new unsigned char[static_cast<std::size_t>(r) * step + 1], [](unsigned char *p) { delete[] p; });
        data = own_.get();
    }
    int type() const { return type_; }
    int channels() const { return (type_ >> 3) + 1; }
    int depth() const { return type_ & 7; }
    std::size_t elemSize1() const { return depth() == CV_16U ? 2 : 1; }
    std::size_t elemSize() const { return static_cast<std::size_t>(channels()) * elemSize1(); }
    bool empty() const { return data == nullptr || rows == 0 || cols == 0; }
    Size size() const { return Size{cols, rows}; }
    Mat operator()(const Rect &r) const
    {
        if (!(0 <= r.x && 0 <= r.width && r.x <= cols - r.width && 0 <= r.y && 0 <= r.height && r.y <= rows - r.height))
            throw Exception{};
        Mat m{*this};
        m.rows = r.height;
        m.cols = r.width;
        m.data = data + static_cast<std::size_t>(r.y) * step + static_cast<std::size_t>(r.x) * elemSize();
        return m;
    }
    void copyTo(Mat &d) const
    {
        Mat keep{*this};
        d.create(rows, cols, type_);
        for (int i = 0; i < rows; i++)
            std::memmove(d.data + static_cast<std::size_t>(i) * d.step, keep.data + static_cast<std::size_t>(i) * keep.step,
                         static_cast<std::size_t>(cols) * elemSize());
    }
    Mat clone() const
    {
        Mat m;
        copyTo(m);
        return m;
    }
    unsigned char *ptr(int r) { return data + static_cast<std::size_t>(r) * step; }
    const unsigned char *ptr(int r) const { return data + static_cast<std::size_t>(r) * step; }

    int rows = 0, cols = 0;
    int type_ = 0;
    unsigned char *data = nullptr;
    std::size_t step = 0;

private:
    std::shared_ptr<unsigned char> own_;
};

enum ImreadModes { IMREAD_UNCHANGED = -1, IMREAD_GRAYSCALE = 0, IMREAD_COLOR = 1 };
enum ColorConversionCodes { COLOR_BGR2BGRA = 0, COLOR_BGRA2BGR = 1, COLOR_BGR2RGBA = 2, COLOR_RGBA2BGR = 3, COLOR_BGR2RGB = 4, COLOR_RGB2BGR = 4, COLOR_BGRA2RGBA = 5 };
enum InterpolationFlags { INTER_NEAREST = 0, INTER_LINEAR = 1 };

// Defined by the harness.
Mat imdecode(const Mat &buf, int mode);
void resize(const Mat &src, Mat &dst, Size s, double fx = 0, double fy = 0, int inter = INTER_LINEAR);

inline bool fail_color = false;

// As documented: 3 or 4 channels in; BGR2RGB gives 3 channels.
inline void cvtColor(const Mat &src, Mat &dst, int code, int = 0)
{
    if ((src.channels() != 3 && src.channels() != 4) || fail_color)
        throw Exception{};
    if (code == COLOR_BGRA2RGBA && src.channels() != 4)
        throw Exception{};
    if (code != COLOR_BGR2RGB && code != COLOR_BGRA2RGBA)
        throw Exception{};
    int n = src.channels(), m = code == COLOR_BGR2RGB ? 3 : 4;
    Mat s{src};
    Mat d{s.rows, s.cols, CV_MAKETYPE(s.depth(), m)};
    const std::size_t e = s.elemSize1();
    for (int i = 0; i < s.rows; i++)
        for (int j = 0; j < s.cols; j++) {
            const unsigned char *p = s.ptr(i) + static_cast<std::size_t>(j * n) * e;
            unsigned char *q = d.ptr(i) + static_cast<std::size_t>(j * m) * e;
            std::memcpy(q, p + 2 * e, e);
            std::memcpy(q + e, p + e, e);
            std::memcpy(q + 2 * e, p, e);
            if (m == 4)
                std::memcpy(q + 3 * e, p + 3 * e, e);
        }
    dst = d;
}

}  // namespace cv
