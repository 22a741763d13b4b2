#include <wordring/wwwc/css_syntax/tokenization.hpp>
#include <wordring/wwwc/css_syntax/parsing.hpp>
