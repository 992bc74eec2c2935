"""planted changes to terrain regions and orientation utilities (P25)"""
from mkseed import *
import seeds_plan as S
SH = HEAD + '''g++ -std=c++17 -O1 -w -I"$D/stub" -I"$R/momentumopt/include" -I"$R/solver/include" -I/usr/include/eigen3 "$D/demo.cpp" "$R"/momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp "$R"/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp -o "$W/demo" -lyaml-cpp
cd "$W"; timeout 60 ./demo
'''
PRE = '''#include <cstdio>
#include <cmath>
#include <fstream>
#include <momentumopt/cntopt/TerrainDescription.hpp>
#include <momentumopt/utilities/OrientationUtils.hpp>
using namespace momentumopt; typedef Eigen::Vector3d V3; typedef Eigen::Quaterniond Q; typedef Eigen::Matrix<double, Eigen::Dynamic, 3> P;
'''
def geo(id, needs, breaks, edits, body):
    os.makedirs("/verif/seeded/%s/stub/yaml_utils" % id, exist_ok=True)
    mk(id, "P25", needs, breaks, edits, dict({"demo.cpp": PRE + body}, **S.STUB), SH)
O = "momentumopt/src/momentumopt/utilities/OrientationUtils.cpp"; T = "momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp"
geo("p25-large-turn", "a rotation vector of more than half a turn",
    "the quaternion of a rotation vector of more than half a turn is that of the opposite rotation",
    [(O, "    quaternion.normalize();\n    if (quaternion.w() < 0.0) {\n      quaternion.w() *= -1.0;\n      quaternion.vec() *= -1.0;\n    }", "    quaternion.normalize();\n    if (quaternion.w() < 0.0) {\n      quaternion.w() *= -1.0;\n    }")],
    'int main() { Q q = integrateAngularVelocity(Q::Identity(), V3(0, 0, 1), 4.0); Q w(Eigen::AngleAxisd(4.0, V3::UnitZ())); double d = std::fabs(std::fabs(q.dot(w)) - 1); std::printf("off %g\\n", d); return !(d < 1e-9); }\n')
geo("p25-error-sign", "orientations whose quaternions have opposite signs, given as such",
    "the orientation error is that of the long way round when the quaternions have opposite signs",
    [(O, "    if (normalized_quaternion.w() < 0.0) {\n      normalized_quaternion.w() *= -1.0;\n      normalized_quaternion.vec() *= -1.0;\n    }\n", ""), (O, "    Eigen::Quaternion<double> delta_quaternion = q_desired*q_current.inverse();\n    Eigen::Vector3d delta_rotation = logarithmicMap(delta_quaternion);\n    return delta_rotation;",
      "    return logarithmicMap(desired_orientation.normalized()*current_orientation.normalized().inverse());")],
    'int main() { Q c(Eigen::AngleAxisd(0.5, V3::UnitX())), d(Eigen::AngleAxisd(1.5, V3::UnitX())); d.coeffs() *= -1; V3 e = orientationError(d, c); std::printf("%g %g %g\\n", e.x(), e.y(), e.z()); return !((e - V3(1, 0, 0)).norm() < 1e-6); }\n')
geo("p25-region-point", "a region that is not a parallelogram",
    "the point of a region is the middle of its first diagonal",
    [(T, "    for (int row_id=0; row_id<num_rows; row_id++)\n      point_ += ccwvertices.row(row_id);\n    point_ /= num_rows;", "    for (int row_id=0; row_id<num_rows; row_id+=2)\n      point_ += ccwvertices.row(row_id);\n    point_ /= (num_rows+1)/2;")],
    'int main() { P v(3, 3); v << 0, 0, 0, 3, 0, 0, 0, 3, 0; TerrainDescription t; t.addTerrainRegion(v); V3 p = t.terrainRegion(0).pointOnTerrain(); std::printf("%g %g %g\\n", p.x(), p.y(), p.z()); return !((p - V3(1, 1, 0)).norm() < 1e-9); }\n')
geo("p25-second-file", "a description that already has regions when a file is read",
    "regions read from a file are numbered from zero although there are regions already",
    [(T, "        this->addTerrainRegion(regions[reg_id]);", "      {\n        terrain_regions_.push_back(TerrainRegion());\n        terrain_regions_.back().initialize(regions[reg_id], reg_id);\n      }\n      num_terrain_regions_ = terrain_regions_.size();")],
    'int main() { P v(4, 3); v << 0, 0, 0, 1, 0, 0, 1, 1, 0, 0, 1, 0; TerrainDescription t; t.addTerrainRegion(v); std::ofstream("t.yaml") << "terrain_description:\\n  regions: [[[0, 0, 0], [1, 0, 0], [1, 1, 0]]]\\n"; t.loadFromFile("t.yaml"); std::printf("%d\\n", t.terrainRegion(1).terrainId()); return t.numRegions() != 2 || t.terrainRegion(1).terrainId() != 1; }\n')
