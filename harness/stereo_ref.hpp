// Independent definitions of the stereo window costs and of window placement, over raw pixel buffers.
#pragma once
#include <opencv2/core.hpp>
#include <opencv2/features2d.hpp>
#include <cmath>
#include <vector>
#include "vr.hpp"
namespace sref {

// An image and an independent copy of its pixels. The cv::Mat may be a view into a larger image (row stride > width).
struct Image {
    cv::Mat backing, mat;
    int rows = 0, cols = 0;
    std::vector<int> px;
    int at(int y, int x) const { return px[(std::size_t)y * cols + x]; }
    void sync() {
        rows = mat.rows; cols = mat.cols;
        px.assign((std::size_t)rows * cols, 0);
        for (int y = 0; y < rows; ++y) for (int x = 0; x < cols; ++x) px[(std::size_t)y * cols + x] = mat.ptr<unsigned char>(y)[x];
    }
};
inline Image random_image(vr::Rng& g, int rows, int cols, int lo = 0, int hi = 255, bool allow_view = true) {
    Image im;
    if (allow_view && g.chance(0.4)) {
        const int l = g.integer(0, 5), r = g.integer(1, 5), t = g.integer(0, 4), b = g.integer(0, 4);
        im.backing = cv::Mat(rows + t + b, cols + l + r, CV_8U);
        im.mat = im.backing(cv::Rect(l, t, cols, rows));
        vr::event("strided_images");
    } else {
        im.backing = cv::Mat(rows, cols, CV_8U);
        im.mat = im.backing;
    }
    const int style = g.integer(0, 3);
    for (int y = 0; y < im.backing.rows; ++y)
        for (int x = 0; x < im.backing.cols; ++x) {
            int v;
            if (style == 0) v = g.integer(lo, hi);
            else if (style == 1) v = g.chance(0.5) ? lo : hi;
            else if (style == 2) v = lo + (hi - lo) * (x + 2 * y) / (im.backing.cols + 2 * im.backing.rows) + g.integer(0, 2);
            else v = g.integer(lo, lo + (hi - lo) / 8);
            im.backing.ptr<unsigned char>(y)[x] = (unsigned char)std::min(255, std::max(0, v));
        }
    im.sync();
    return im;
}
struct Window { int x, y, w, h; };  // top left and size
inline bool inside(const Image& im, const Window& w) { return w.x >= 0 && w.y >= 0 && w.x + w.w <= im.cols && w.y + w.h <= im.rows; }
inline double sum(const Image& im, const Window& w) {
    double s = 0;
    for (int j = 0; j < w.h; ++j) for (int i = 0; i < w.w; ++i) s += im.at(w.y + j, w.x + i);
    return s;
}
inline double sum2(const Image& im, const Window& w) {
    double s = 0;
    for (int j = 0; j < w.h; ++j) for (int i = 0; i < w.w; ++i) s += (double)im.at(w.y + j, w.x + i) * im.at(w.y + j, w.x + i);
    return s;
}
enum class Cost { SAD, SSD, ZMSAD, LSSAD, NCC };
inline const char* name(Cost c) { static const char* n[] = {"SAD", "SSD", "ZMSAD", "LSSAD", "NCC"}; return n[(int)c]; }
inline double cost(Cost c, const Image& a, const Window& wa, const Image& b, const Window& wb) {
    const double n = (double)wa.w * wa.h, ma = sum(a, wa) / n, mb = sum(b, wb) / n;
    double s = 0;
    for (int j = 0; j < wa.h; ++j)
        for (int i = 0; i < wa.w; ++i) {
            const double p = a.at(wa.y + j, wa.x + i), q = b.at(wb.y + j, wb.x + i);
            switch (c) {
                case Cost::SAD: s += std::abs(p - q); break;
                case Cost::SSD: s += (p - q) * (p - q); break;
                case Cost::ZMSAD: s += std::abs((p - ma) - (q - mb)); break;
                case Cost::LSSAD: s += std::abs(p - ma / mb * q); break;
                case Cost::NCC: s += p * q; break;
            }
        }
    return c == Cost::NCC ? -s / std::sqrt(sum2(a, wa) * sum2(b, wb)) : s;
}
inline Window centred(const cv::Point2f& p, int w, int h) { return {(int)std::floor(p.x) - (w - 1) / 2, (int)std::floor(p.y) - (h - 1) / 2, w, h}; }

}
