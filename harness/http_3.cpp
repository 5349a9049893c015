#include "http.hpp"
void sw::run_http_3(const json& j, const options& o) { replay<http<bool(3 & 4), bool(3 & 2), bool(3 & 1)>>(j, o); }
