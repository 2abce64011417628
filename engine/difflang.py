"""Programs that compare the translator with the compiler, one language feature or one number type at a time
(developer's tool, not part of a check): `python3-vt engine/difflang.py lang|types|probes [LO HI]`.  Every program is spliced
into DataStructure as a method, translated, proved about, compiled with g++ and run on random objects; a value the
translator says is certain and the compiled code contradicts is UNSOUND (see difffuzz.py)."""
import sys

T=["double","float","int","long","short","unsigned","std::size_t","char","bool","unsigned char","long double","std::int8_t"]
B=["double s = 0; std::vector<{T}> v(norm_t.begin(), norm_t.end()); for(auto q: v){{ s += q; }} return s;",
"double s = 0; std::vector<{T}> v(norm_t.size()); std::copy(norm_t.begin(), norm_t.end(), v.begin()); for(auto q: v){{ s += q; }} return s;",
"std::vector<double> v(norm_t.size()); std::transform(norm_t.begin(), norm_t.end(), v.begin(), std::bind2nd(std::minus<{T}>(), x)); return v.empty() ? 0.0 : v[0];",
"std::vector<double> v(norm_t.size()); std::transform(norm_t.begin(), norm_t.end(), v.begin(), std::bind(std::plus<{T}>(), std::placeholders::_1, x)); return v.empty() ? 0.0 : v[0];",
"std::vector<double> v(norm_t.size()); std::transform(norm_t.begin(), norm_t.end(), norm_t.begin(), v.begin(), std::multiplies<{T}>()); return v.empty() ? 0.0 : v[0];",
"return std::accumulate(norm_t.begin(), norm_t.end(), ({T})0);",
"return std::accumulate(norm_t.begin(), norm_t.end(), 0.0, std::plus<{T}>());",
"return std::accumulate(norm_t.begin(), norm_t.end(), 0.0, []({T} a, double b){{ return a + b; }});",
"return std::inner_product(norm_t.begin(), norm_t.end(), norm_t.begin(), ({T})0);",
"auto f = []({T} d){{ return d; }}; return f(x);",
"auto f = [](double d) -> {T} {{ return d; }}; return f(x);",
"double s = 0; for({T} q: norm_t){{ s += q; }} return s;",
"double s = 0; std::vector<{T}> v; for(auto q: norm_t){{ v.push_back(q); }} for(auto q: v){{ s += q; }} return s;",
"double s = 0; std::vector<{T}> v; v.assign(norm_t.begin(), norm_t.end()); for(auto q: v){{ s += q; }} return s;",
"double s = 0; std::vector<{T}> v; v.insert(v.end(), norm_t.begin(), norm_t.end()); for(auto q: v){{ s += q; }} return s;",
"std::vector<{T}> v; v.resize(3, x); return v[1];",
"std::vector<{T}> v(3, x); return v[1];",
"std::vector<{T}> v(3); std::fill(v.begin(), v.end(), x); return v[1];",
"std::vector<{T}> v(3); v[0] = x; v[1] = v[0] + y; v[2] += x; return v[0] + v[1] + v[2];",
"std::vector<{T}> v(3); v[0] = x; v[0] *= y; return v[0];",
"std::vector<{T}> v; v.emplace_back(x); return v[0];",
"return std::max<{T}>(x, y);", "return std::min<{T}>(x, y) + x;",
"{T} q = x; q += y; return q;", "{T} q = x; q *= y; return q;", "{T} q = x; q++; return q;", "{T} q = a; q -= 3; return q;", "{T} q = a; q /= 2; return q;","{T} q = a; --q; return q;",
"{T} q = a; {T} p = x; return q + p;", "{T} q = a; return q * 100000;", "{T} q = a; return q < -1 ? 1 : 0;", "{T} q = a * 100; return q;", "{T} q = a + 70000; return q;",
"return ({T})x / 2;", "return static_cast<{T}>(a) / 2;", "return a < 0 ? ({T})a : x;", "auto q = {{x, y}}; return *q.begin();",
"return std::abs(({T})x);", "return abs(x);", "return fabs(({T})x);", "return std::exp(({T})y);", "return std::floor(({T})x);", "return std::pow(({T})x, 2);",
"return std::count_if(norm_t.begin(), norm_t.end(), []({T} d){{ return d > 1; }});",
"return std::any_of(norm_t.begin(), norm_t.end(), [x]({T} d){{ return d > x; }});",
"return std::distance(norm_t.begin(), std::lower_bound(norm_t.begin(), norm_t.end(), ({T})x));",
"return std::distance(norm_t.begin(), std::lower_bound(norm_t.begin(), norm_t.end(), x, std::less<{T}>()));",
"return std::distance(norm_t.begin(), std::upper_bound(norm_t.begin(), norm_t.end(), x, []({T} p, {T} q){{ return p < q; }}));",
"return std::distance(norm_t.begin(), std::find_if(norm_t.begin(), norm_t.end(), std::bind2nd(std::greater<{T}>(), x)));",
"std::vector<{T}> v(4); std::iota(v.begin(), v.end(), x); return v[3];", "std::vector<double> v(4); std::iota(v.begin(), v.end(), ({T})x); return v[3];",
"std::vector<double> v(4); std::fill(v.begin(), v.end(), ({T})x); return v[3];",
"std::vector<{T}> v(norm_t.size()); std::remove_copy_if(norm_t.begin(), norm_t.end(), v.begin(), [](double d){{ return d > 2; }}); return v.empty() ? 0.0 : v[0];",
"std::vector<{T}> v(norm_t.size()); std::transform(norm_t.begin(), norm_t.end(), v.begin(), [](double d){{ return d / 3; }}); return v.empty() ? 0.0 : v[0];",
"std::vector<double> v(norm_t.size()); std::transform(norm_t.begin(), norm_t.end(), v.begin(), [](double d) -> {T} {{ return d / 3; }}); return v.empty() ? 0.0 : v[0];",
"std::vector<{T}> v(norm_t.size()); std::copy_n(norm_t.begin(), norm_t.size(), v.begin()); return v.empty() ? 0.0 : v.back();",
"const {T}& q = x; return q;", "const {T} q[2] = {{({T})x, ({T})y}}; return q[1];", "struct S {{ {T} m; }} s; s.m = x; return s.m;",
"return x > ({T})y;", "return ({T})x == ({T})y;", "if(({T})x){{ return 1; }} return 2;", "{T} n2 = norm_t.size(); return n2 - 3;", "{T} n2 = norm_t.size(); return n2 / -2;",
"for({T} i = 0; i < 3; i++){{ if(i == 2){{ return i + x; }} }} return 0;", "{T} q = 300; return q;", "{T} q = -1; return q;", "{T} q = 0.1; return q;", "double q = 0.1f; return q;", "return 16777217.0f + x;", "return x * 0.1f;",
"return std::numeric_limits<{T}>::max() > 1e9 ? 1 : 0;", "return std::numeric_limits<{T}>::lowest() < -1e9 ? 1 : 0;", "return std::numeric_limits<{T}>::epsilon() > 1e-10 ? 1 : 0;", "return sizeof({T});",
"return a / 2u;", "return a % 3u;", "return -(unsigned)1 > 0 ? 1 : a - 5u;", "return (a - 5u) / 2;", "unsigned q = a; return q > 5 ? 1 : 0;", "return a < (int)norm_t.size() ? 1 : 0;", "return (norm_t.size() - 100 < 5) ? 1 : 0;", "return a < norm_t.size() ? 1 : 0;",
"return ({T})x == x ? 1 : 0;", "{T} q = std::floor(x); return q;", "return std::isnan(({T})x);", "std::vector<std::vector<{T}>> v(2, std::vector<{T}>(2)); v[1][0] = x; return v[1][0];",
"std::vector<std::vector<double>> v(2); v[1].assign(2, ({T})x); return v[1][0];", "{T} q{{}}; q = x; return q;", "return std::fmod(x, ({T})3);", "return expf(x) + fabsf(y);", "return std::sqrt(({T})4);", "return 1 / ({T})3;", "return 1.f / 3;", "return std::round(x);", "return !({T})x;", "return ({T})a << 1;", "return ({T})a & 1;", "return ~({T})a;",
"std::vector<double> v(norm_t); v.erase(v.begin()); return v.empty() ? 0.0 : v[0];", "double q = (a, x); return q;", "int q = 5; q = q++ + 1; return q;", "int b2 = a; int q = b2++ * 2 + b2; return q;", "int q = a; return q++ + 0.5;", "switch(a){{ case 0: return 1; case 1: case 2: return x; default: return y; }}",
]

LANG = r'''
static int calls = 0; calls++; return calls > 1 ? x : x;
static double last = 0; double r = last; last = x; return r;
double& r = x; r += 1; return x;
double r = x; double& q = r; q = y; r += 1; return q;
const double& q = x; x = 5; return q;
std::vector<double> v(norm_t); v[0] = 99; return norm_t[0];
std::vector<double>& v = norm_t; v[0] = 99; return norm_t[0];
auto v = norm_t; v[0] = 99; return norm_t[0];
auto& v = norm_t; v[0] = 99; return norm_t[0];
const auto& v = norm_t; norm_t[0] = 7; return v[0];
auto p = &norm_t; (*p)[0] = 4; return norm_t[0];
auto p = &norm_t; p->push_back(4); return norm_t.size();
for(auto q: norm_t){ q = 5; } return norm_t[0];
for(auto& q: norm_t){ q = 5; } return norm_t[0];
for(auto& q: norm_t){ if(q > 1){ q = -q; } } double s = 0; for(auto q: norm_t){ s += q; } return s;
double s = 0; for(std::size_t i = 0; i < norm_t.size(); ++i){ if(norm_t[i] > 2){ continue; } s += norm_t[i]; } return s;
double s = 0; for(std::size_t i = 0; i < norm_t.size(); ++i){ if(norm_t[i] > 2){ break; } s += norm_t[i]; } return s;
int i = 0; do { i++; } while(i < a); return i;
int i = 0; while(true){ if(i >= a){ break; } i++; } return i;
int i = a; while(i --> 0){ x += 1; } return i;
int i = 0; for(;;){ if(++i > 3){ return i; } }
int i = 0; int j = 10; for(; i < j; i++, j--){ } return i * 100 + j;
int k = 0; for(int i = 0; i < 3; i++){ for(int j = i; j < 3; j++){ k += j; if(j == 1){ break; } } } return k;
(a > 0 ? x : y) = 3; return x + y * 10;
double q = a > 0 ? x : 1; return q;
return a > 0 ? 1 : 2.5;
return a > 0 && ++a > 2 ? a : -a;
if(a > 0 || (x = 3) > 2){ return x; } return 0;
bool b = a; b |= x > 1; return b;
bool b = a > 1; b &= x > 0; return b ? 3 : 4;
return (a > 1) + (x > 0) * 2;
return !a; 
return -a * -a - - a;
return a - 1 - 1 + a * 2 / 3 % 4;
return a / 2 * 2.0 + a / 2.0;
return -7 / 2 + -7 % 3 * 100;
return a << 2; 
return (a & 1) == 0;
auto f = [x]() mutable { x += 1; return x; }; f(); f(); return x;
auto f = [x]() mutable { x += 1; return x; }; f(); return f();
auto f = [&x]() { x += 1; return x; }; f(); f(); return x;
auto f = [&]() { x += 1; y = x; }; f(); return y;
auto f = [=]() { return x + y; }; x = 100; return f();
auto f = [&]() { return x + y; }; x = 100; return f();
auto f = [x, &y](double q) { y += q; return x + y; }; x = 50; f(1); return f(2);
auto f = [this](int i) { return norm_t[i]; }; return f(0);
auto f = [this](int i) { norm_t[i] = 9; }; f(0); return norm_t[0];
auto f = [](double q) -> double { if(q > 1){ return 1; } return q; }; return f(x) + f(y);
auto f = [](auto q){ return q * 2; }; return f(x) + f(a);
auto f = [](double a, double b = 3){ return a + b; }; return f(x);
std::function<double(double)> f = [](double q){ return q + 1; }; return f(x);
double s = 0; std::for_each(norm_t.begin(), norm_t.end(), [&s](double q){ s += q; }); return s;
struct S { double p; int q; }; S s{x, a}; S r = s; r.p = 9; return s.p + r.q;
struct S { double p = 4; double get() const { return p; } }; S s; s.p += x; return s.get();
struct S { double p; S(double q): p(q + 1) {} }; S s(x); return s.p;
std::pair<double, int> p(x, a); return p.first + p.second;
auto p = std::make_pair(x, a); p.first = 3; return p.first;
double arr[3] = {x, y, 1}; arr[1] = 5; return arr[0] + arr[1] + arr[2];
double arr[3]{}; arr[a & 1] = x; return arr[0] - arr[1];
std::array<double, 3> arr = {x, y, 1}; return arr[0] + arr[2];
const double c = 0.5; return x * c;
constexpr int c = 3; return a + c;
enum { A, B = 5, C }; return C + a;
using V = std::vector<double>; V v(2, x); return v[1];
typedef double dd; dd q = x; return q;
std::vector<double> v = {x, y, 3}; return v[2] + v.size();
std::vector<double> v{3, x}; return v.size();
std::vector<double> v(3, x); return v.size();
std::vector<int> v{a, 2}; v[1] += v[0]; return v[1];
std::vector<double> v; v.push_back(x); v.push_back(y); v.pop_back(); return v.back() + v.size();
std::vector<double> v(norm_t); v.clear(); return v.size();
std::vector<double> v(norm_t); v.resize(2); return v.size() + v[1];
std::vector<double> v(norm_t); v.resize(v.size() + 2); return v.back();
std::vector<double> v(norm_t); v.resize(v.size() + 2, x); return v.back();
std::vector<double> v(norm_t); v.insert(v.begin(), x); return v[0] + v.size();
std::vector<double> v(norm_t); v.insert(v.begin() + 1, 2, x); return v[1] + v.size();
std::vector<double> v(norm_t); v.erase(v.begin()); return v.size();
std::vector<double> v(norm_t); v.erase(v.begin(), v.begin() + 1); return v.size();
std::vector<double> v(norm_t); v.erase(std::remove_if(v.begin(), v.end(), [](double d){ return d > 1; }), v.end()); return v.size();
std::vector<double> v(norm_t), w(t); v.swap(w); return v[0] + w.size() * 100;
std::vector<double> v(norm_t), w(t); std::swap(v, w); return v[0];
std::vector<double> v(norm_t), w; w = std::move(v); return w.size();
std::vector<double> v(norm_t.rbegin(), norm_t.rend()); return v[0];
std::vector<double> v(norm_t); std::reverse(v.begin(), v.end()); return v[0];
std::vector<double> v(norm_t); std::sort(v.begin(), v.end()); return v[0];
return *std::max_element(norm_t.begin(), norm_t.end());
return *std::min_element(norm_t.begin(), norm_t.end());
return norm_t.front() + norm_t.back();
return *norm_t.begin() + *(norm_t.end() - 1) + norm_t.end()[-1];
auto it = norm_t.begin(); ++it; return it - norm_t.begin();
auto it = norm_t.begin(); double q = *it++; return q + (it - norm_t.begin());
auto it = std::next(norm_t.begin()); return std::distance(norm_t.begin(), it);
double s = 0; for(auto it = norm_t.begin(); it != norm_t.end(); ++it){ s += *it; } return s;
double s = 0; for(auto it = norm_t.rbegin(); it != norm_t.rend(); ++it){ s = s / 2 + *it; } return s;
return std::accumulate(norm_t.begin(), norm_t.end(), x);
return std::accumulate(norm_t.begin() + 1, norm_t.end(), 0.0) / norm_t.size();
return std::inner_product(norm_t.begin(), norm_t.end(), t.begin(), 1.0);
double s = 0; std::vector<double> v; std::copy_if(norm_t.begin(), norm_t.end(), std::back_inserter(v), [](double q){ return q > 1; }); for(double q: v){ s += q; } return s + v.size();
std::vector<double> v; std::transform(norm_t.begin(), norm_t.end(), t.begin(), std::back_inserter(v), [](double p, double q){ return p - q; }); return v.empty() ? 0 : v[0];
std::vector<double> v(norm_t.size()); std::partial_sum(norm_t.begin(), norm_t.end(), v.begin()); return v.back();
std::vector<double> v(norm_t.size()); std::adjacent_difference(norm_t.begin(), norm_t.end(), v.begin()); return v.back();
std::transform(norm_t.begin(), norm_t.end(), norm_t.begin(), [](double q){ return q + 1; }); return norm_t[0];
std::copy(norm_t.begin() + 1, norm_t.end(), norm_t.begin()); return norm_t[0];
std::copy_backward(norm_t.begin(), norm_t.end() - 1, norm_t.end()); return norm_t.back();
std::fill(norm_t.begin(), norm_t.end(), x); return norm_t.back();
return std::equal(norm_t.begin(), norm_t.end(), t.begin());
return norm_t == t;
return norm_t.empty() ? 1 : 2;
return std::count(norm_t.begin(), norm_t.end(), x);
return std::find(norm_t.begin(), norm_t.end(), x) - norm_t.begin();
return std::binary_search(norm_t.begin(), norm_t.end(), x);
return std::upper_bound(norm_t.begin(), norm_t.end(), x) - norm_t.begin();
return std::lower_bound(norm_t.begin(), norm_t.end(), x) - norm_t.begin();
auto q = std::lower_bound(norm_t.begin(), norm_t.end(), x); return q == norm_t.end() ? -1 : *q;
auto q = std::minmax(x, y); return q.first;
return std::max({x, y, 1.0});
return std::min(x, y) - std::max(x, 2.0);
return std::fabs(x) + std::abs(y) + std::abs(a);
return std::sqrt(std::abs(x)); 
return std::pow(x, 2) + std::pow(x, 3.0);
return std::floor(x) + std::ceil(y) + std::trunc(x);
return std::isnan(x) || x != x;
return x == x ? 1 : 0;
return NAN == x; 
return std::numeric_limits<double>::infinity() > x;
return x / (y - y);
try { return norm_t.at(100); } catch(const std::out_of_range& e) { return -5; }
try { if(a > 0){ throw std::runtime_error("x"); } return 1; } catch(...) { return 2; }
if(a > 3){ throw std::invalid_argument("a"); } return a;
std::vector<std::vector<double>> m(2, norm_t); m[0][0] = 5; return m[1][0];
std::vector<std::vector<double>> m(2, norm_t); m[1] = t; return m[1][0];
std::vector<std::vector<double>> m; m.push_back(norm_t); m.push_back(t); return m.size() + m[1][0];
std::vector<std::vector<double>> m(2, std::vector<double>(3, x)); m[0].push_back(7); return m[0].size() + m[1].size();
std::vector<std::vector<double>> m(2, norm_t); for(auto r: m){ r[0] = 9; } return m[0][0];
std::vector<std::vector<double>> m(2, norm_t); for(auto& r: m){ r[0] = 9; } return m[0][0];
int i = 0; norm_t[i++] = x; return i + norm_t[0];
int i = 0; double q = norm_t[i] + i++; return i;
double q = 1; q = q + (q = 5); return 1;
int i = 1; i += i++ ; return 1;
goto end; x = 5; end: return x;
switch(a){ case 1: x += 1; case 2: x += 2; break; case 3: return 7; default: x = -1; } return x;
switch(a % 3){ case 0: { double q = x; return q; } case 1: return y; } return 2;
if(double q = x){ return q; } return 1;
int n1 = norm_t.size(), n2 = n1 * 2; return n2;
unsigned long s = 0; for(unsigned long i = norm_t.size(); i-- > 0;){ s += i; } return s;
long s = 0; for(long i = (long)norm_t.size() - 1; i >= 0; --i){ s += i * i; } return s;
double s = 0; for(int i = 0; i < norm_t.size() - 1; i++){ s += norm_t[i]; } return s;
double s = 0; int c = 0; for(double q: norm_t){ if(!std::isnan(q)){ s += q; c++; } } return c ? s / c : 0;
double s = 0; for(double q: norm_t){ s += std::isnan(q) ? 0 : q * q; } return s;
double mx = norm_t[0]; for(double q: norm_t){ if(q > mx){ mx = q; } } return mx;
double mx = norm_t[0]; for(double q: norm_t){ mx = std::max(mx, q); } return mx;
double d = 1e9; for(std::size_t i = 1; i < norm_t.size(); i++){ double g = norm_t[i] - norm_t[i - 1]; if(g > 0 && g < d){ d = g; } } return d;
double x2 = x; { double x = 5; x2 += x; } return x2 + x;
double q; if(a > 0){ q = 1; } else { q = 2; } return q;
double q; if(a > 0){ q = 1; } return a > 0 ? q : 0;
return [](double p){ return p + 1; }(x);
return ([&]{ x = 3; return x; })() + x * 0;
const double* p = norm_t.data(); return p[0];
double* p = &norm_t[0]; *p = 3; return norm_t[0];
double q = x; double* p = &q; *p += 2; return q;
double q = x; double* p = nullptr; if(a > 0){ p = &q; } if(p){ *p = 1; } return q;
std::unique_ptr<double> p(new double(x)); *p += 1; return *p;
double* p = new double(x); double q = *p + 1; delete p; return q;
double* p = new double[3]; p[1] = x; double q = p[1]; delete[] p; return q;
std::string s = "ab"; return s.size();
return norm_t.size() > 2 ? norm_t[2] : norm_t.capacity() > 1000000;
auto tup = std::make_tuple(x, a); return std::get<0>(tup);
double p, q; std::tie(p, q) = std::make_tuple(x, y); return p - q;
return sizeof(double) + a;
return static_cast<double>(a) / 2 + double(a) + (double)a / 4;
return long(x) + int(y);
return int(x + 0.5);
return a == 0 ? throw std::runtime_error("z") : x;
volatile double q = x; return q;
register int q = a; return q;
auto n3 = norm_t.size(); n3 -= 100; return n3 > 5;
auto n3 = norm_t.size() - t.size(); return n3;
int d = norm_t.size() - 10; return d;
double d = (int)norm_t.size() - 10; return d;
double d = norm_t.size() - 10.0; return d;
std::size_t k = 5; k = k - 7 + 3; return k;
std::size_t k = 3; return k - 5 < 2;
std::size_t k = 3; return (long)(k - 5);
long k = -1; return k < norm_t.size();
int k = -1; return k < (long)norm_t.size();
return std::max<long>(a, norm_t.size());
return std::min<std::size_t>(a < 0 ? 0 : a, norm_t.size());
'''.strip('\n').split('\n')


def plan(which):
    if which == "probes":
        import os
        return [(b, None) for b in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "probes_cpp.txt")).read().strip().split("\n")]
    if which == "lang":
        return [(b, None) for b in LANG]
    return [(b, t) for b in B for t in (T if "{T}" in b else ["double"])]


def main(argv):
    progs = plan(argv[0])
    lo, hi = (int(argv[1]), int(argv[2])) if len(argv) > 2 else (0, len(progs))
    progs = progs[lo:hi]
    import difffuzz

    class Gen:
        k = 0

        def __init__(self, r):
            pass

        def method(self, name):
            b, t = progs[Gen.k % len(progs)]
            Gen.k += 1
            b = b if t is None else b.format(T=t)
            return "double %s(int, double, double);" % name, "double DataStructure::%s(int a, double x, double y) {\n    %s\n}\n" % (name, b)

    difffuzz.Gen = Gen
    print(len(progs), "programs")
    return difffuzz.main(["programs", str(len(progs)), "seed", "5", "states", "14"])


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
