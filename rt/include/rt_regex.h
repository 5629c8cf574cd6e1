// regex_traits::value reads a digit through a string stream, which the model of the C++ runtime leaves out.
#include <regex>
template <> int std::regex_traits<char>::value(char c, int radix) const;
