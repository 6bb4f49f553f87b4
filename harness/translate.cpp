#include "Exceptions.h"
#include <exception>
#include <string>
const char* pbt_translate_exception()
{
	static std::string s;
	try { throw; }
	catch(const NS::NSException& e) { s = std::string("library exception: ") + e.what(); }
	catch(...) { s = "unknown exception"; }
	return s.c_str();
}
