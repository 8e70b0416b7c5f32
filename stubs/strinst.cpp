// Instantiates the std::string members that libstdc++ keeps in the shared library, so that they exist as bitcode.
#include <string>
template class std::basic_string<char>;
template std::string std::operator+(const std::string&,const std::string&);
