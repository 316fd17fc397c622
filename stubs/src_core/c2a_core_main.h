// Stand-in for the flight software C2A, which is not available offline: records the commands it is given.
#pragma once
#define C2A_CORE_VER_MAJOR 4
