#include "http.hpp"
void sw::run_http_5(const json& j, const options& o) { replay<http<bool(5 & 4), bool(5 & 2), bool(5 & 1)>>(j, o); }
