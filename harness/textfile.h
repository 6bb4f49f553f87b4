// Text files: shown readably, garbled, and what every mesh read from one has to fulfil
#pragma once
#include "meshgen.h"

namespace h {
inline std::string shown(const std::string& t)
{
	std::string r;
	for(char c : t) { if(c == '\n') r += "\\n\n"; else if(c == '\r') r += "\\r"; else if(c == '\t') r += "\\t"; else if((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", (unsigned char)c); r += b; } else r += c; }
	return r;
}
inline std::string mutate(Src& s, std::string t, const std::vector<const char*>& tok)
{
	const size_t n = s.size(1, 6);
	for(size_t k = 0; k < n; ++k) {
		const size_t p = (size_t)s.raw(t.size() + 1), q = std::min(t.size(), p + (size_t)s.small(1, 12));
		switch(s.raw(7)) {
		case 0: t = t.substr(0, p); break;
		case 1: t.erase(p, q - p); break;
		case 2: t.insert(p, s.of(tok)); break;
		case 3: if(p < t.size()) t[p] = (char)s.raw(256); break;
		case 4: t.insert((size_t)s.raw(t.size() + 1), t.substr(p, q - p)); break;
		case 5: t.replace(p, q - p, s.of(tok)); break;
		default: { // A field gets another value (one of the first eleven)
			const size_t a = t.find_first_of("0123456789", p);
			if(a == std::string::npos) break;
			size_t b = a; while(b < t.size() && t[b] >= '0' && t[b] <= '9') ++b;
			t.replace(a, b - a, tok[s.raw(11)]);
			break;
		}
		}
	}
	return t;
}
// Whatever was read: no element without or with foreign vertices
template<class T> void consistent(const NS::Mesh<T, 2>& m)
{
	for(size_t i = 0; i < m.vertices().size(); ++i) {
		REQ(m.vertex(i) && m.vertex(i)->GlobalIndex == i, "vertex " << i << " has the wrong index");
		for(auto e : m.vertex(i)->Elements) REQ(std::find(m.elements().begin(), m.elements().end(), e) != m.elements().end(), "vertex " << i << " lists an unknown element");
	}
	for(size_t e = 0; e < m.elements().size(); ++e) for(int i = 0; i < 3; ++i) {
		const auto v = m.element(e)->Vertices[i];
		REQ(v && v->GlobalIndex < m.vertices().size() && m.vertex(v->GlobalIndex) == v, "element " << e << " has an unknown vertex");
		REQ(m.element(e)->Neighbors[i] != nullptr, "element " << e << " has no edge");
	}
}
// The same number in other words: digits before or after the point left out, zeros in front
inline std::string respelled(Src& s, const std::string& t)
{
	size_t a = t[0] == '+' || t[0] == '-' ? 1 : 0, e = t.find_first_of("eE");
	std::string sign = t.substr(0, a), m = t.substr(a, e == std::string::npos ? e : e - a), x = e == std::string::npos ? "" : t.substr(e);
	if(s.coin() && m.find('.') != std::string::npos) m.erase(m.find_last_not_of('0') + 1);
	if(!x.empty() && m.size() > 1 && m[1] == '.' && s.coin()) {// .123e+3 for 1.23e+2
		m = "." + m.substr(0, 1) + m.substr(2);
		char b[16]; snprintf(b, sizeof b, s.coin() ? "%+03d" : "%d", atoi(x.c_str() + 1) + 1);
		x = x[0] + std::string(b);
	}
	else if(m.size() > 2 && m[0] == '0' && m[1] == '.' && s.chance(3, 4)) m.erase(0, 1);
	else if(s.chance(1, 5)) m = std::string(s.size(1, 3), '0') + m;
	return sign + m + x;
}
}
