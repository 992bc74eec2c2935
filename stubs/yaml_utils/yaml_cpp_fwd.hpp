// Stand-in for the yaml_utils package, which is not installed here: the part of its
// interface the repository uses (reading parameters that must exist; Eigen conversions).
#pragma once
#include <yaml-cpp/yaml.h>
#include <yaml_utils/yaml_eigen.hpp>
#include <stdexcept>
#include <string>
namespace YAML {
template <class T> void ReadParameter(const YAML::Node& node, const std::string& name, T& value) {
  if (!node[name]) throw std::runtime_error("Error reading the yaml parameter [" + name + "]");
  value = node[name].template as<T>();
}
template <class T> T ReadParameter(const YAML::Node& node, const std::string& name) { T v; ReadParameter(node, name, v); return v; }
}
