#pragma once
#include <yaml-cpp/yaml.h>
#include <Eigen/Dense>
namespace YAML {
template <class S, int R, int C, int O, int MR, int MC> struct convert<Eigen::Matrix<S, R, C, O, MR, MC>> {
  typedef Eigen::Matrix<S, R, C, O, MR, MC> Mat;
  static Node encode(const Mat& m) {
    Node n(NodeType::Sequence);
    if (C == 1) { for (int i = 0; i < m.rows(); i++) n.push_back(m(i, 0)); return n; }
    for (int i = 0; i < m.rows(); i++) { Node r(NodeType::Sequence); for (int j = 0; j < m.cols(); j++) r.push_back(m(i, j)); n.push_back(r); }
    return n;
  }
  static bool decode(const Node& n, Mat& m) {
    if (!n.IsSequence()) return false;
    int rows = n.size(), cols = rows && n[0].IsSequence() ? n[0].size() : 1;
    if (rows == 0) cols = C == Eigen::Dynamic ? 0 : C;
    if ((R != Eigen::Dynamic && R != rows) || (C != Eigen::Dynamic && C != cols)) return false;
    m.resize(rows, cols);
    for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) m(i, j) = n[i].IsSequence() ? n[i][j].template as<S>() : n[i].template as<S>();
    return true;
  }
};
}
