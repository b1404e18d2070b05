// explicit instantiations of the repository's helper templates, so that they are verified too
#include <math_lib.hpp>
namespace ESKF_VIO_BACKEND {
    inline void vc_instantiate(const Vector3 &v, const Quaternion &q) {
        Utility::SkewSymmetricMatrix<Vector3>(v);
        Utility::DeltaQ<Vector3>(v);
        Utility::Positify<Quaternion>(q);
        Utility::Qleft<Quaternion>(q);
        Utility::Qright<Quaternion>(q);
    }
}
