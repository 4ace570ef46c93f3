#include "model.hh"
Arena g_arena;
Noise g_nz;
std::map<std::string, Model>& models() { static std::map<std::string, Model> m; return m; }
