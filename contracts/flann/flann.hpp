// What is assumed of the library FLANN: an index that was built over the rows of a matrix
// finds the k rows nearest to a query, nearest first, with their squared distances.
#ifndef VC_FLANN
#define VC_FLANN
#include <vector>
#include <cstddef>
namespace flann {
template<typename T> struct Matrix {
  T* p; size_t rows, cols; Matrix() : p(0), rows(0), cols(0) {} Matrix(T* p, size_t rows, size_t cols) : p(p), rows(rows), cols(cols) {}
  T* operator[](size_t i) const { return p + i * cols; } T* ptr() const { return p; }
};
template<typename T> struct L2 { typedef T ElementType; typedef T ResultType; };
struct KDTreeIndexParams { KDTreeIndexParams(int = 4) {} }; struct LinearIndexParams {}; struct KDTreeSingleIndexParams { KDTreeSingleIndexParams(int = 10) {} };
struct SearchParams { SearchParams(int = 32, float = 0, bool = true) {} };
template<typename D> class Index {
  Matrix<double> m; bool built;
public:
  template<typename P> Index(const Matrix<double>& m, const P&) : m(m), built(false) {}
  void buildIndex() { built = true; }
  size_t size() const { return m.rows; }
  int knnSearch(const Matrix<double>& q, std::vector<std::vector<int> >& indices, std::vector<std::vector<double> >& dists, size_t k, const SearchParams&) const {
    vc_check(built && q.cols == m.cols, "the index is built before it is asked, for points of the dimension it was built for");
    indices.clear(); dists.clear();
    for (size_t r = 0; r < q.rows; ++r) {
      std::vector<double> d; std::vector<int> used, id; std::vector<double> ds;
      for (size_t i = 0; i < m.rows; ++i) { double s = 0; for (size_t j = 0; j < m.cols; ++j) s += (q[r][j] - m[i][j]) * (q[r][j] - m[i][j]); d.push_back(s); used.push_back(0); }
      for (size_t c = 0; c < k && c < m.rows; ++c) {
        int b = -1; for (size_t i = 0; i < m.rows; ++i) if (!used[i] && (b < 0 || d[i] < d[b])) b = (int)i;
        used[b] = 1; id.push_back(b); ds.push_back(d[b]);
      }
      indices.push_back(id); dists.push_back(ds);
    }
    return (int)(k * q.rows);
  }
};
}
#endif
