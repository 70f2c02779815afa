"""Generates plain C++ structs for ROS messages and services: the standard ones below and the ones defined in the repository."""
import glob, os, re

STD = {
"std_msgs/Header": "uint32 seq\ntime stamp\nstring frame_id",
"std_msgs/MultiArrayDimension": "string label\nuint32 size\nuint32 stride",
"std_msgs/MultiArrayLayout": "MultiArrayDimension[] dim\nuint32 data_offset",
"std_msgs/Float64MultiArray": "MultiArrayLayout layout\nfloat64[] data",
"std_msgs/Float64": "float64 data", "std_msgs/Float32": "float32 data", "std_msgs/Bool": "bool data", "std_msgs/String": "string data",
"std_msgs/Int32": "int32 data", "std_msgs/Empty": "",
"geometry_msgs/Point": "float64 x\nfloat64 y\nfloat64 z",
"geometry_msgs/Point32": "float32 x\nfloat32 y\nfloat32 z",
"geometry_msgs/PointStamped": "Header header\nPoint point",
"geometry_msgs/Vector3": "float64 x\nfloat64 y\nfloat64 z",
"geometry_msgs/Vector3Stamped": "Header header\nVector3 vector",
"geometry_msgs/Quaternion": "float64 x\nfloat64 y\nfloat64 z\nfloat64 w",
"geometry_msgs/Pose": "Point position\nQuaternion orientation",
"geometry_msgs/PoseStamped": "Header header\nPose pose",
"geometry_msgs/PoseWithCovariance": "Pose pose\nfloat64[36] covariance",
"geometry_msgs/PoseWithCovarianceStamped": "Header header\nPoseWithCovariance pose",
"geometry_msgs/Twist": "Vector3 linear\nVector3 angular",
"geometry_msgs/TwistStamped": "Header header\nTwist twist",
"geometry_msgs/TwistWithCovariance": "Twist twist\nfloat64[36] covariance",
"geometry_msgs/TwistWithCovarianceStamped": "Header header\nTwistWithCovariance twist",
"geometry_msgs/Transform": "Vector3 translation\nQuaternion rotation",
"geometry_msgs/TransformStamped": "Header header\nstring child_frame_id\nTransform transform",
"sensor_msgs/Imu": "Header header\ngeometry_msgs/Quaternion orientation\nfloat64[9] orientation_covariance\ngeometry_msgs/Vector3 angular_velocity\n"
                   "float64[9] angular_velocity_covariance\ngeometry_msgs/Vector3 linear_acceleration\nfloat64[9] linear_acceleration_covariance",
"sensor_msgs/PointField": "uint8 INT8=1\nuint8 UINT8=2\nuint8 INT16=3\nuint8 UINT16=4\nuint8 INT32=5\nuint8 UINT32=6\nuint8 FLOAT32=7\nuint8 FLOAT64=8\n"
                          "string name\nuint32 offset\nuint8 datatype\nuint32 count",
"sensor_msgs/PointCloud2": "Header header\nuint32 height\nuint32 width\nPointField[] fields\nbool is_bigendian\nuint32 point_step\nuint32 row_step\nuint8[] data\nbool is_dense",
"sensor_msgs/Image": "Header header\nuint32 height\nuint32 width\nstring encoding\nuint8 is_bigendian\nuint32 step\nuint8[] data",
"sensor_msgs/RegionOfInterest": "uint32 x_offset\nuint32 y_offset\nuint32 height\nuint32 width\nbool do_rectify",
"sensor_msgs/CameraInfo": "Header header\nuint32 height\nuint32 width\nstring distortion_model\nfloat64[] D\nfloat64[9] K\nfloat64[9] R\nfloat64[12] P\nuint32 binning_x\nuint32 binning_y\nRegionOfInterest roi",
"sensor_msgs/FluidPressure": "Header header\nfloat64 fluid_pressure\nfloat64 variance",
"nav_msgs/Odometry": "Header header\nstring child_frame_id\ngeometry_msgs/PoseWithCovariance pose\ngeometry_msgs/TwistWithCovariance twist",
"nav_msgs/Path": "Header header\ngeometry_msgs/PoseStamped[] poses",
"tf2_msgs/TFMessage": "geometry_msgs/TransformStamped[] transforms",
}
SRV = {"std_srvs/Empty": ("", ""), "std_srvs/Trigger": ("", "bool success\nstring message")}
PRIM = {"bool": "std::uint8_t", "int8": "std::int8_t", "uint8": "std::uint8_t", "byte": "std::int8_t", "char": "std::uint8_t", "int16": "std::int16_t",
        "uint16": "std::uint16_t", "int32": "std::int32_t", "uint32": "std::uint32_t", "int64": "std::int64_t", "uint64": "std::uint64_t",
        "float32": "float", "float64": "double", "string": "std::string", "time": "ros::Time", "duration": "ros::Duration"}


def parse(text):
    out = []
    for line in text.splitlines():
        line = line.split("#", 1)[0].strip()
        if not line:
            continue
        m = re.match(r"(\S+)\s+(\w+)\s*=\s*(.+)$", line)
        if m:
            out.append(("const", m.group(1), m.group(2), m.group(3).strip()))
        else:
            t, n = line.split()
            out.append(("field", t, n, None))
    return out


def ctype(t, pkg, includes):
    m = re.match(r"(.+?)\[(\d*)\]$", t)
    if m:
        inner = ctype(m.group(1), pkg, includes)
        return "boost::array<%s, %s>" % (inner, m.group(2)) if m.group(2) else "std::vector<%s>" % inner
    if t in PRIM:
        return PRIM[t]
    if t == "Header":
        t = "std_msgs/Header"
    if "/" not in t:
        t = pkg + "/" + t
    includes.add(t)
    return "::" + t.replace("/", "::")


def struct(pkg, name, text, includes, extra=""):
    b, eq, sc = [], [], []
    for kind, t, n, v in parse(text):
        if kind == "const":
            b.append("    static constexpr %s %s = %s;" % (PRIM[t], n, v))
        else:
            ct = ctype(t, pkg, includes)
            b.append("    %s %s{};" % (ct, n))
            eq.append("a.%s == b.%s" % (n, n))
    return ("struct %s {\n    typedef boost::shared_ptr<%s> Ptr;\n    typedef boost::shared_ptr<%s const> ConstPtr;\n%s\n%s"
            "    friend bool operator==(const %s& a, const %s& b) { (void)a; (void)b; return %s; }\n"
            "    friend bool operator!=(const %s& a, const %s& b) { return !(a == b); }\n};\n") % (
        name, name, name, "\n".join(b), extra, name, name, " && ".join(eq) or "true", name, name)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    open(path, "w").write(text)


HEAD = "#pragma once\n#include <cstdint>\n#include <ostream>\n#include <string>\n#include <vector>\n#include <boost/array.hpp>\n#include <boost/shared_ptr.hpp>\n#include <ros/time.h>\n"


def generate(repo, out):
    msgs = dict(STD)
    srvs = dict(SRV)
    for f in sorted(glob.glob(os.path.join(repo, "*", "msg", "*.msg"))):
        msgs["%s/%s" % (f.split(os.sep)[-3], os.path.basename(f)[:-4])] = open(f).read()
    for f in sorted(glob.glob(os.path.join(repo, "*", "srv", "*.srv"))):
        rq, _, rs = open(f).read().partition("---")
        srvs["%s/%s" % (f.split(os.sep)[-3], os.path.basename(f)[:-4])] = (rq, rs)
    for full, text in msgs.items():
        pkg, name = full.split("/")
        inc = set()
        body = struct(pkg, name, text, inc)
        write(os.path.join(out, full + ".h"), HEAD + "".join("#include <%s.h>\n" % i for i in sorted(inc)) + "namespace %s {\n%s"
              "typedef boost::shared_ptr<%s> %sPtr;\ntypedef boost::shared_ptr<%s const> %sConstPtr;\n"
              "inline std::ostream& operator<<(std::ostream& os, const %s&) { return os << \"%s\"; }\n}\n" % (pkg, body, name, name, name, name, name, full))
    for full, (rq, rs) in srvs.items():
        pkg, name = full.split("/")
        inc = set()
        body = struct(pkg, name + "Request", rq, inc) + struct(pkg, name + "Response", rs, inc)
        write(os.path.join(out, full + ".h"), HEAD + "".join("#include <%s.h>\n" % i for i in sorted(inc)) + "namespace %s {\n%s"
              "struct %s {\n    typedef %sRequest Request;\n    typedef %sResponse Response;\n    Request request;\n    Response response;\n};\n}\n"
              % (pkg, body, name, name, name))
        write(os.path.join(out, full + "Request.h"), "#pragma once\n#include <%s.h>\n" % full)
        write(os.path.join(out, full + "Response.h"), "#pragma once\n#include <%s.h>\n" % full)
    try:
        config(repo, out)
    except Exception as e:  # only the harness that includes it depends on it
        print("no configuration header: %s" % e)


# The shipped configuration, as serpent's load_parameters.launch loads it: a header that sets every parameter.
def config(repo, out):
    try:
        import yaml
    except ImportError:
        return
    import re
    tree = {}
    def merge(a, b):
        for k, v in b.items():
            if isinstance(v, dict) and isinstance(a.get(k), dict):
                merge(a[k], v)
            else:
                a[k] = v
    launch = open(os.path.join(repo, "serpent", "launch", "load_parameters.launch")).read()
    for f in re.findall(r'default="\$\(find serpent\)/(config/[\w.]+)"', launch):
        merge(tree, yaml.safe_load(open(os.path.join(repo, "serpent", f))) or {})
    lines = []
    def lit(v):
        if isinstance(v, bool):
            return "XmlRpc::XmlRpcValue(%s)" % str(v).lower()
        if isinstance(v, int):
            return "XmlRpc::XmlRpcValue(%d)" % v
        if isinstance(v, float):
            return "XmlRpc::XmlRpcValue(static_cast<double>(%r))" % v
        if isinstance(v, list):
            return "list({%s})" % ", ".join(lit(x) for x in v)
        if isinstance(v, dict):
            return "record({%s})" % ", ".join('{"%s", %s}' % (k, lit(x)) for k, x in v.items())
        return 'XmlRpc::XmlRpcValue(std::string("%s"))' % str(v)
    def walk(prefix, t):
        for k, v in t.items():
            lines.append('    vros::set_param("%s%s", %s);' % (prefix, k, lit(v)))
            if isinstance(v, dict):
                walk(prefix + k + "/", v)
    walk("/serpent/", tree)
    write(os.path.join(out, "vr_config.hpp"), """#pragma once
#include <ros/ros.h>
namespace vr_config {
inline XmlRpc::XmlRpcValue list(const std::vector<XmlRpc::XmlRpcValue>& v) { XmlRpc::XmlRpcValue x; x.setSize(0); for (std::size_t i = 0; i < v.size(); ++i) x[static_cast<int>(i)] = v[i]; return x; }
inline XmlRpc::XmlRpcValue record(const std::vector<std::pair<std::string, XmlRpc::XmlRpcValue>>& v) { XmlRpc::XmlRpcValue x; for (auto& e : v) x[e.first] = e.second; return x; }
inline void load() {
%s
}
}
""" % "\n".join(lines))


if __name__ == "__main__":
    import sys
    generate(sys.argv[1], sys.argv[2])
