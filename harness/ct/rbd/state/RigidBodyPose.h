// Stand-in for the pose type (the real one needs kindr, which is not available here): a pose is only passed through by
// the code under test (InverseKinematicsBase).
#pragma once
namespace ct {
namespace rbd {
namespace tpl {
template <typename SCALAR = double>
struct RigidBodyPose
{
    int id = -1;
    void setIdentity() { id = 0; }
};
}
}
}
