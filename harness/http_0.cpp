#include "http.hpp"
void sw::run_http_0(const json& j, const options& o) { replay<http<bool(0 & 4), bool(0 & 2), bool(0 & 1)>>(j, o); }
