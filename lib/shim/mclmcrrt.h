#pragma once
inline bool mclmcrInitialize(){ return true; }
