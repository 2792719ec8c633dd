#pragma once

#include <string>

inline std::string getPROPOSALVersion() {
    return "7.6.2";
}
inline unsigned getPROPOSALVersionMajor() {
    return 7+0;
}
inline unsigned getPROPOSALVersionMinor()
{
    return 6+0;
}
inline unsigned getPROPOSALVersionPatch()
{
    return 2+0;
}
inline unsigned getPROPOSALVersionTweak()
{
    return +0;
}
