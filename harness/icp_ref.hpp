// Exact second derivatives of the four ICP objectives for one correspondence. x = [r, t], z = [p, q].
#pragma once
#include "ref.hpp"
namespace icp_ref {
enum class Model { PointPointNonlinear, PointPointLinearised, PointPlaneNonlinear, PointPlaneLinearised };
// half d2F/dx2 (6x6) and half d2F/dzdx (rows x, columns z).
void derivatives(Model m, const ref::V3& r, const ref::V3& t, const ref::V3& p, const ref::V3& q, const ref::V3& n, ref::M6& dx2, ref::M6& dzdx);
}
