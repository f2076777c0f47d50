// Conformance harness: executes a line protocol of public-API operations of the Cuttlefish library
// and prints one JSON object per executed operation (an observation that the TLA+ trace
// specifications in /verif/specs consume).  Only the public headers are used.
#include <cuttlefish/Color.h>
#include <cuttlefish/Image.h>
#include <cuttlefish/Texture.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <streambuf>
#include <string>
#include <vector>
#include <unistd.h>
#include <fcntl.h>
#include <csignal>
#include <sys/resource.h>
#include <sys/stat.h>

using namespace cuttlefish;
using std::string;

static std::vector<string> A;   // tokens of the current line
static size_t P;                // next token
static std::string out;

static string S() { if (P >= A.size()) { fprintf(stderr, "missing arg in: %s\n", A.empty() ? "" : A[0].c_str()); exit(90);} return A[P++]; }
static bool more() { return P < A.size(); }
static long N() { string s = S(); char* e; long v = strtol(s.c_str(), &e, 0); if (*e) { fprintf(stderr, "bad int %s\n", s.c_str()); exit(90);} return v; }
static unsigned U() { return static_cast<unsigned>(N()); }
// Numbers: decimal, n/d or 0x<bits>f (raw float bits) or inf/nan
static double D()
{
	string s = S();
	if (s.size() > 2 && s[0] == '0' && s[1] == 'x')
	{
		uint32_t b = static_cast<uint32_t>(strtoul(s.c_str(), nullptr, 16));
		float f; memcpy(&f, &b, 4); return f;
	}
	size_t k = s.find('/');
	if (k != string::npos)
		return strtod(s.substr(0, k).c_str(), nullptr)/strtod(s.substr(k + 1).c_str(), nullptr);
	return strtod(s.c_str(), nullptr);
}

static std::map<long, Image> images;
static std::map<long, Texture> textures;
using CM = Texture::CustomMipImage;
static std::map<long, std::unique_ptr<CM>> cmips;
static std::map<long, bool> cmMoved;            // moved from: not looked at until it has a value again

// ---- JSON output ----
static void jkey(const char* k) { if (out.size() > 1 && out.back() != '{' && out.back() != '[') out += ','; out += '"'; out += k; out += "\":"; }
static void jsep() { if (out.back() != '[' && out.back() != '{') out += ','; }
static void ji(const char* k, long v) { jkey(k); out += std::to_string(v); }
static void jb(const char* k, bool v) { jkey(k); out += v ? "true" : "false"; }
static void js(const char* k, const string& v)
{
	jkey(k); out += '"';
	for (char c : v) { if (c == '"' || c == '\\') { out += '\\'; out += c; } else if (static_cast<unsigned char>(c) < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); out += b; } else out += c; }
	out += '"';
}
static const long FIX = 65536;
// value scaled by 2^16, saturated to +-2^30; NaN -> 2^30+1
static long fix(double v)
{
	if (std::isnan(v)) return (1L << 30) + 1;
	double s = v*FIX;
	if (s > 1073741824.0) return 1L << 30;
	if (s < -1073741824.0) return -(1L << 30);
	return std::lround(s);
}
static void jbytes(const char* k, const void* p, size_t n)
{
	jkey(k); out += '[';
	const uint8_t* b = static_cast<const uint8_t*>(p);
	for (size_t i = 0; i < n; ++i) { if (i) out += ','; out += std::to_string(b[i]); }
	out += ']';
}

static unsigned fmtBytes(Image::Format f)
{
	switch (f)
	{
		case Image::Format::Gray8: return 1;
		case Image::Format::Gray16: case Image::Format::RGB5: case Image::Format::RGB565:
		case Image::Format::Int16: case Image::Format::UInt16: return 2;
		case Image::Format::RGB8: return 3;
		case Image::Format::RGBA8: case Image::Format::Int32: case Image::Format::UInt32: case Image::Format::Float: return 4;
		case Image::Format::RGB16: return 6;
		case Image::Format::RGBA16: case Image::Format::Double: return 8;
		case Image::Format::RGBF: return 12;
		case Image::Format::RGBAF: case Image::Format::Complex: return 16;
		default: return 0;
	}
}

// iview nx ny: images are reported as what their nx x ny repetition makes them: the state with the
// size of a part, the pixels of the first part, and in "off" the places where the others differ
static unsigned viewX = 1, viewY = 1;
static unsigned partW(const Image& im) { return im.width() % viewX ? im.width() : im.width()/viewX; }
static unsigned partH(const Image& im) { return im.height() % viewY ? im.height() : im.height()/viewY; }
static void imgParts(const Image& im, bool raw)
{
	if (viewX == 1 && viewY == 1)
		return;
	unsigned pw = partW(im), ph = partH(im), bytes = im.bitsPerPixel()/8, n = 0;
	jkey("off"); out += '[';
	for (unsigned y = 0; y < im.height() && n < 4; ++y)
	{
		auto a = static_cast<const uint8_t*>(im.scanline(y)), b = static_cast<const uint8_t*>(im.scanline(y % ph));
		for (unsigned x = 0; x < im.width() && n < 4; ++x)
		{
			if (memcmp(a + size_t(x)*bytes, b + size_t(x % pw)*bytes, bytes) == 0)
				continue;
			ColorRGBAd c = {-7, -7, -7, -7}, d = c;
			if (!raw && im.getPixel(c, x, y) && im.getPixel(d, x % pw, y % ph) && c.r == d.r && c.g == d.g && c.b == d.b && c.a == d.a)
				continue;
			jsep(); out += '[' + std::to_string(x) + ',' + std::to_string(y) + ']'; ++n;
		}
	}
	out += ']';
}

static void imgState(const Image& im, const char* key)
{
	jkey(key); out += '{';
	jb("valid", im.isValid()); jb("boolop", static_cast<bool>(im));
	ji("fmt", static_cast<long>(im.format())); ji("cs", static_cast<long>(im.colorSpace()));
	ji("w", partW(im)); ji("h", partH(im)); ji("bpp", im.bitsPerPixel());
	out += '}';
}

// pixels as fix-point quadruples, row 0 first
static void imgPixels(const Image& im, const char* key)
{
	imgParts(im, false);
	jkey(key); out += '[';
	for (unsigned y = 0; y < partH(im); ++y)
	{
		jsep(); out += '[';
		for (unsigned x = 0; x < partW(im); ++x)
		{
			ColorRGBAd c = {-7, -7, -7, -7};
			bool ok = im.getPixel(c, x, y);
			jsep();
			if (!ok) { out += "[]"; continue; }
			out += '[' + std::to_string(fix(c.r)) + ',' + std::to_string(fix(c.g)) + ',' + std::to_string(fix(c.b)) + ',' + std::to_string(fix(c.a)) + ']';
		}
		out += ']';
	}
	out += ']';
}

// tag: 16-bit folded hash of the raw rows (exact pixel identity)
static long imgHash(const Image& im)
{
	if (!im) return 0;
	uint32_t h = 2166136261u;
	unsigned n = im.width()*fmtBytes(im.format());
	for (unsigned y = 0; y < im.height(); ++y)
	{
		const uint8_t* b = static_cast<const uint8_t*>(im.scanline(y));
		if (!b) return -1;
		for (unsigned i = 0; i < n; ++i) { h ^= b[i]; h *= 16777619u; }
	}
	h ^= static_cast<uint32_t>(im.width())*31u + static_cast<uint32_t>(im.colorSpace())*7u + static_cast<uint32_t>(im.format());
	return static_cast<long>(((h >> 16) ^ h) & 0xFFFFFF) + 1;
}

static const Image& IMG(long i) { return images[i]; }

// ---- sinks ----
// A stream buffer that accepts the first `limit` bytes and then refuses.
class FaultBuf : public std::streambuf
{
public:
	std::vector<uint8_t> data;
	size_t limit;
	bool refused = false;
	bool seekable;
	FaultBuf(size_t l, bool seek) : limit(l), seekable(seek) {}
protected:
	int_type overflow(int_type c) override
	{
		if (data.size() >= limit) { refused = true; return traits_type::eof(); }
		data.push_back(static_cast<uint8_t>(c));
		return c;
	}
	std::streamsize xsputn(const char* s, std::streamsize n) override
	{
		std::streamsize k = 0;
		for (; k < n && data.size() < limit; ++k) data.push_back(static_cast<uint8_t>(s[k]));
		if (k < n) refused = true;
		return k;
	}
	pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override
	{
		if (!seekable) return pos_type(off_type(-1));
		if (dir == std::ios_base::cur && off == 0) return pos_type(static_cast<off_type>(data.size()));
		return pos_type(off_type(-1));
	}
};

// Refuses exactly the n-th write call (nothing of it is accepted), then accepts again.
class GlitchBuf : public std::streambuf
{
public:
	std::vector<uint8_t> data; long at; long calls = 0; bool refused = false;
	explicit GlitchBuf(long n) : at(n) {}
protected:
	int_type overflow(int_type c) override { if (calls++ == at) { refused = true; return traits_type::eof(); } data.push_back(static_cast<uint8_t>(c)); return c; }
	std::streamsize xsputn(const char* s, std::streamsize n) override { if (n == 0) return 0; if (calls++ == at) { refused = true; return 0; } data.insert(data.end(), s, s + n); return n; }
};

static uint32_t fnv(const void* p, size_t n) { uint32_t h = 2166136261u; for (size_t i = 0; i < n; ++i) { h ^= static_cast<const uint8_t*>(p)[i]; h *= 16777619u; } return (h >> 8) & 0xFFFFFF; }

static std::map<std::pair<long, long>, size_t> lastLen;   // size of the last file saved for (texture, type)
// A limit: a number or relative to the size of the last file: L, L-1, L+1, L/2
static size_t limitOf(const string& s, long t, long ft)
{
	if (s[0] != 'L') return static_cast<size_t>(strtoul(s.c_str(), nullptr, 10));
	size_t n = lastLen[std::make_pair(t, ft)];
	if (s.size() < 3) return n;
	size_t k = static_cast<size_t>(strtoul(s.c_str() + 2, nullptr, 10));
	return s[1] == '-' ? (n > k ? n - k : 0) : s[1] == '+' ? n + k : n/k;
}
// No file of this process can grow beyond n bytes (the write fails) while this exists.
struct FileLimit
{
	rlimit old;
	explicit FileLimit(size_t n) { signal(SIGXFSZ, SIG_IGN); getrlimit(RLIMIT_FSIZE, &old); rlimit r = old; r.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &r); }
	~FileLimit() { setrlimit(RLIMIT_FSIZE, &old); }
};

// Buffered sink: accepts everything into a buffer; only sync() (flush) reports the failure.
class LateBuf : public std::streambuf
{
public:
	std::vector<uint8_t> data; size_t limit; bool refused = false;
	explicit LateBuf(size_t l) : limit(l) {}
protected:
	int_type overflow(int_type c) override { data.push_back(static_cast<uint8_t>(c)); return c; }
	std::streamsize xsputn(const char* s, std::streamsize n) override { data.insert(data.end(), s, s + n); return n; }
	int sync() override { if (data.size() > limit) { refused = true; return -1; } return 0; }
};

// A non-seekable input.
class PipeBuf : public std::streambuf
{
public:
	std::vector<char> d; size_t chunk; size_t pos = 0;
	PipeBuf(std::vector<char> v, size_t c) : d(std::move(v)), chunk(c) {}
protected:
	int_type underflow() override
	{
		if (pos >= d.size()) return traits_type::eof();
		size_t n = std::min(chunk, d.size() - pos);
		setg(d.data() + pos, d.data() + pos, d.data() + pos + n);
		pos += n;
		return traits_type::to_int_type(*gptr());
	}
};

static std::vector<char> slurp(const string& p)
{
	struct stat st;
	if (stat(p.c_str(), &st) != 0 || !S_ISREG(st.st_mode)) return {};
	std::ifstream f(p, std::ios::binary);
	return std::vector<char>((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}

// ---- texture state ----
static void texState(const Texture& t, const char* key, bool hashes)
{
	jkey(key); out += '{';
	jb("valid", t.isValid()); jb("boolop", static_cast<bool>(t));
	ji("dim", static_cast<long>(t.dimension())); ji("cs", static_cast<long>(t.colorSpace())); jb("arr", t.isArray());
	unsigned m = t.mipLevelCount(), f = t.faceCount();
	ji("mips", m); ji("faces", f); jb("complete", t.imagesComplete()); jb("conv", t.converted());
	ji("fmt", static_cast<long>(t.format())); ji("type", static_cast<long>(t.type())); ji("alpha", static_cast<long>(t.alphaType()));
	Texture::ColorMask cm = t.colorMask(); ji("mask", cm.r | (cm.g << 1) | (cm.b << 2) | (cm.a << 3));
	// extents for levels 0..m (level m is out of range) and a far one
	jkey("ext"); out += '[';
	for (unsigned i = 0; i <= m; ++i) { jsep(); out += '[' + std::to_string(t.width(i)) + ',' + std::to_string(t.height(i)) + ',' + std::to_string(t.depth(i)) + ']'; }
	out += ']';
	jb("far", t.width(1000) == 0 && t.height(1000) == 0 && t.depth(1000) == 0 && t.width(~0u) == 0);
	// images present: imgs[mip][depth][face] = content tag or 0
	jkey("imgs"); out += '[';
	bool edge = true;      // out of range queries gave the empty answers
	for (unsigned i = 0; i < m; ++i)
	{
		jsep(); out += '[';
		for (unsigned d = 0; d < t.depth(i); ++d)
		{
			jsep(); out += '[';
			for (unsigned k = 0; k < f; ++k)
			{
				const Image& im = t.getImage(static_cast<Texture::CubeFace>(k), i, d);
				jsep(); out += std::to_string(!im ? 0 : hashes ? imgHash(im) : 1);
				if (im && (im.width() != t.width(i) || im.height() != t.height(i) || im.format() != Image::Format::RGBAF || im.colorSpace() != t.colorSpace())) edge = false;
			}
			out += ']';
			const Image& nf = t.getImage(i, d);
			if (f == 1) { if (&nf != &t.getImage(Texture::CubeFace::PosX, i, d)) edge = false; }
			else if (nf) edge = false;
			if (f == 1) for (unsigned k = 1; k < 6; ++k) if (t.getImage(static_cast<Texture::CubeFace>(k), i, d)) edge = false;
		}
		out += ']';
		if (t.getImage(i, t.depth(i)) || t.getImage(Texture::CubeFace::PosX, i, t.depth(i))) edge = false;
		if (t.getImage(i, ~0u)) edge = false;
	}
	out += ']';
	if (t.getImage(m, 0) || t.getImage(Texture::CubeFace::PosX, m, 0) || t.getImage(~0u, 0)) edge = false;
	// data sizes
	jkey("data"); out += '[';
	for (unsigned i = 0; i < m; ++i)
	{
		jsep(); out += '[';
		for (unsigned d = 0; d < t.depth(i); ++d)
		{
			jsep(); out += '[';
			for (unsigned k = 0; k < f; ++k)
			{
				auto fc = static_cast<Texture::CubeFace>(k);
				size_t n = t.dataSize(fc, i, d); const void* p = t.data(fc, i, d);
				if ((n == 0) != (p == nullptr)) edge = false;
				uint32_t h = 2166136261u; for (size_t q = 0; q < n; ++q) { h ^= static_cast<const uint8_t*>(p)[q]; h *= 16777619u; }
				jsep(); out += std::to_string(n);
				if (hashes) { out += ','; out += std::to_string(n ? ((h >> 8) & 0xFFFFFF) : 0); }
			}
			out += ']';
			if (f == 1) { if (t.data(i, d) != t.data(Texture::CubeFace::PosX, i, d) || t.dataSize(i, d) != t.dataSize(Texture::CubeFace::PosX, i, d)) edge = false;
				for (unsigned k = 1; k < 6; ++k) if (t.data(static_cast<Texture::CubeFace>(k), i, d) || t.dataSize(static_cast<Texture::CubeFace>(k), i, d)) edge = false; }
			else if (t.data(i, d) || t.dataSize(i, d)) edge = false;
		}
		out += ']';
		if (t.data(i, t.depth(i)) || t.dataSize(i, t.depth(i)) || t.data(Texture::CubeFace::PosX, i, t.depth(i))) edge = false;
	}
	out += ']';
	if (t.data(m, 0) || t.dataSize(m, 0) || t.data(Texture::CubeFace::PosX, m, 0) || t.data(~0u, 0)) edge = false;
	jb("edge", edge);
	out += '}';
}

static bool dispatch();

int main(int argc, char** argv)
{
	(void)argc; (void)argv;
	std::ios::sync_with_stdio(false);
	string line;
	long n = 0;
	while (std::getline(std::cin, line))
	{
		A.clear(); P = 0;
		std::istringstream ss(line); string t;
		while (ss >> t) A.push_back(t);
		if (A.empty() || A[0][0] == '#') continue;
		out = "{";
		ji("n", n++);
		js("op", A[0]);
		if (A[0] != "case" && A[0] != "note")
		{
			// the command's arguments: integers as numbers, everything else as strings
			jkey("a"); out += '[';
			for (size_t i = 1; i < A.size() && i < 64; ++i)
			{
				jsep();
				const string& s = A[i]; char* e = nullptr; long v = strtol(s.c_str(), &e, 10);
				if (!s.empty() && !*e && v > -2147483648L && v < 2147483648L) out += std::to_string(v);
				else { out += '"'; for (char c : s) { if (c == '"' || c == '\\') out += '\\'; out += c; } out += '"'; }
			}
			out += ']';
		}
		bool emit;
		try { emit = dispatch(); }
		catch (const std::exception& e) { out = "{"; ji("n", n - 1); js("op", A[0]); js("exception", e.what()); emit = true; }
		out += "}\n";
		if (emit) { fwrite(out.data(), 1, out.size(), stdout); fflush(stdout); }
	}
	return 0;
}


// the colour exactly: v = hi*65536 + lo + fr/65536, hi within +-65536
static void exactColour(const ColorRGBAd& c)
{
	jkey("v"); out += '[';
	for (double q : {c.r, c.g, c.b, c.a}) { double fl = std::floor(q); double hi = std::floor(fl/65536); if (!(hi < 65536)) hi = 65536; if (hi < -65536) hi = -65536;
		bool far = std::abs(hi) == 65536; double lo = far ? 0 : fl - hi*65536; long fr = far ? 0 : static_cast<long>(std::floor((q - fl)*65536));
		jsep(); out += '[' + std::to_string(static_cast<long>(hi)) + ',' + std::to_string(static_cast<long>(lo)) + ',' + std::to_string(fr) + ']'; }
	out += ']';
}

static bool dispatch()
{
	string op = S();
	if (op == "iview") { viewX = U(); viewY = U(); return false; }
	if (op == "itile") // itile i nx ny: the image becomes its repetition
	{
		long i = N(); unsigned nx = U(), ny = U(); const Image& im = images[i]; Image r; r.initialize(im.format(), im.width()*nx, im.height()*ny, im.colorSpace());
		size_t row = size_t(im.width())*im.bitsPerPixel()/8;
		for (unsigned y = 0; y < r.height(); ++y) for (unsigned x = 0; x < nx; ++x)
			memcpy(static_cast<uint8_t*>(r.scanline(y)) + x*row, im.scanline(y % im.height()), row);
		images[i] = std::move(r);
		return false;
	}
	if (op == "case")   // new case: all objects dropped
	{
		viewX = viewY = 1;
		cmips.clear(); cmMoved.clear(); images.clear(); textures.clear(); lastLen.clear();
		js("id", S());
		string rest; while (more()) { if (!rest.empty()) rest += ' '; rest += S(); }
		if (!rest.empty()) { jkey("p"); out += rest; }   // raw JSON parameters for the specification
		return true;
	}
	if (op == "note") { js("id", S()); jkey("p"); string rest; while (more()) { if (!rest.empty()) rest += ' '; rest += S(); } out += rest; return true; }
	// ---------------- images ----------------
	if (op == "iinit") { long i = N(); auto f = static_cast<Image::Format>(N()); unsigned w = U(), h = U(); auto cs = static_cast<ColorSpace>(N());
		ji("i", i); jb("ret", images[i].initialize(f, w, h, cs)); imgState(images[i], "st"); return true; }
	if (op == "ictor") { long i = N(); auto f = static_cast<Image::Format>(N()); unsigned w = U(), h = U(); auto cs = static_cast<ColorSpace>(N());
		images[i] = Image(f, w, h, cs); ji("i", i); jb("ret", images[i].isValid()); imgState(images[i], "st"); return true; }
	if (op == "ireset") { long i = N(); images[i].reset(); ji("i", i); imgState(images[i], "st"); return true; }
	// quiet construction: iq i fmt w h cs mode args...
	if (op == "iq" || op == "iqv")     // iqv also reports
	{
		long i = N(); auto f = static_cast<Image::Format>(N()); unsigned w = U(), h = U(); auto cs = static_cast<ColorSpace>(N()); string mode = S();
		Image im; im.initialize(f, w, h, cs);
		if (!im) { images[i] = Image(); if (op == "iqv") ji("i", i); return op == "iqv"; }
		if (mode == "const") { ColorRGBAd c; c.r = D(); c.g = D(); c.b = D(); c.a = D();
			for (unsigned y = 0; y < h; ++y) for (unsigned x = 0; x < w; ++x) im.setPixel(x, y, c, false); }
		else if (mode == "pos") // channel values encode the position: r=(x%256)/256.. exact dyadics
		{ for (unsigned y = 0; y < h; ++y) for (unsigned x = 0; x < w; ++x) { ColorRGBAd c; c.r = (x % 256)/256.0; c.g = (y % 256)/256.0; c.b = ((x*7 + y*13) % 64)/64.0; c.a = ((x + y) % 32)/32.0; im.setPixel(x, y, c, false); } }
		else if (mode == "posu8") // positions as k/255 (exact in 8-bit unorm); offset distinguishes images
		{ long o = N(); for (unsigned y = 0; y < h; ++y) for (unsigned x = 0; x < w; ++x) { ColorRGBAd c; c.r = ((x + o) % 256)/255.0; c.g = ((y + 3*o) % 256)/255.0; c.b = ((x*7 + y*13 + o) % 256)/255.0; c.a = ((x*5 + y*3 + 2*o) % 256)/255.0; im.setPixel(x, y, c, false); } }
		else if (mode == "posint") // the same numerators as integers
		{ long o = N(); for (unsigned y = 0; y < h; ++y) for (unsigned x = 0; x < w; ++x) { ColorRGBAd c; c.r = (x + o) % 256; c.g = (y + 3*o) % 256; c.b = (x*7 + y*13 + o) % 256; c.a = (x*5 + y*3 + 2*o) % 256; im.setPixel(x, y, c, false); } }
		else if (mode == "tile8" || mode == "tileint") // the positions modulo 13 x 11
		{ long o = N(); double k = mode == "tile8" ? 255.0 : 1.0; for (unsigned Y = 0; Y < h; ++Y) for (unsigned X = 0; X < w; ++X) { unsigned x = X % 13, y = Y % 11; ColorRGBAd c; c.r = ((x + o) % 256)/k; c.g = ((y + 3*o) % 256)/k; c.b = ((x*7 + y*13 + o) % 256)/k; c.a = ((x*5 + y*3 + 2*o) % 256)/k; im.setPixel(X, Y, c, false); } }
		else if (mode == "px") // explicit pixels, row-major, r g b a each
		{ for (unsigned y = 0; y < h; ++y) for (unsigned x = 0; x < w; ++x) { ColorRGBAd c; c.r = D(); c.g = D(); c.b = D(); c.a = D(); im.setPixel(x, y, c, false); } }
		else if (mode == "gray") // explicit r only
		{ for (unsigned y = 0; y < h; ++y) for (unsigned x = 0; x < w; ++x) { ColorRGBAd c; c.r = c.g = c.b = D(); c.a = 1; im.setPixel(x, y, c, false); } }
		else if (mode == "bytes") // raw bytes per row, seeded generator (never NaN: used for integer formats)
		{ uint32_t s = static_cast<uint32_t>(N()); unsigned nb = w*fmtBytes(f); for (unsigned y = 0; y < h; ++y) { uint8_t* b = static_cast<uint8_t*>(im.scanline(y)); for (unsigned q = 0; q < nb; ++q) { s = s*1664525u + 1013904223u; b[q] = static_cast<uint8_t>(s >> 24); } } }
		else { fprintf(stderr, "bad mode\n"); exit(90); }
		images[i] = std::move(im);
		if (op == "iqv") ji("i", i);
		return op == "iqv";
	}
	if (op == "iwrite") { long i = N(); unsigned y = U(), k = U(); long v = N(); Image& im = images[i]; uint8_t* b = im ? static_cast<uint8_t*>(im.scanline(y)) : nullptr; bool r = b && k < im.width()*fmtBytes(im.format()); if (r) b[k] = static_cast<uint8_t>(v); ji("i", i); jb("ret", r); return true; }
	if (op == "itex") { long i = N(), t = N(); auto f = static_cast<Texture::CubeFace>(N()); unsigned m = U(), d = U(); images[i] = static_cast<const Texture&>(textures[t]).getImage(f, m, d); ji("i", i); ji("t", t); return true; }
	if (op == "istate") { long i = N(); const Image& im = images[i]; ji("i", i); imgState(im, "st");
		auto h = [](uint32_t v) { return static_cast<long>(v); };
		(void)h; auto half = [&](const char* k, uint32_t v) { jkey(k); out += '[' + std::to_string(v >> 16) + ',' + std::to_string(v & 0xFFFF) + ']'; };
		half("rm", im.redMask()); half("gm", im.greenMask()); half("bm", im.blueMask()); half("am", im.alphaMask());
		ji("rs", im.redShift()); ji("gs", im.greenShift()); ji("bs", im.blueShift()); ji("as", im.alphaShift());
		jb("scan", im.isValid() ? (im.scanline(0) != nullptr && im.scanline(im.height() - 1) != nullptr && im.scanline(im.height()) == nullptr && im.scanline(~0u) == nullptr) : im.scanline(0) == nullptr);
		return true; }
	if (op == "iset") { long i = N(); unsigned x = U(), y = U(); ColorRGBAd c; c.r = D(); c.g = D(); c.b = D(); c.a = D(); bool g = N() != 0;
		exactColour(c);
		bool sr = images[i].setPixel(x, y, c, g);
		ji("i", i); ji("x", x > 100000 ? -1 : static_cast<long>(x)); ji("y", y > 100000 ? -1 : static_cast<long>(y)); jb("ret", sr); return true; }
	if (op == "iprobe") // iprobe i x y r g b a gray: a write into a large image, and the places it changed
	{
		long i = N(); unsigned x = U(), y = U(); ColorRGBAd c; c.r = D(); c.g = D(); c.b = D(); c.a = D(); bool g = N() != 0;
		Image& im = images[i]; unsigned bytes = im.bitsPerPixel()/8; size_t row = size_t(im.width())*bytes;
		std::vector<uint8_t> old; for (unsigned Y = 0; Y < im.height(); ++Y) { auto q = static_cast<const uint8_t*>(im.scanline(Y)); old.insert(old.end(), q, q + row); }
		exactColour(c);
		bool ret = im.setPixel(x, y, c, g);
		ji("x", x > 10000000 ? -1 : static_cast<long>(x)); ji("y", y > 10000000 ? -1 : static_cast<long>(y)); jb("gray", g); jb("ret", ret); imgState(im, "st");
		jkey("changed"); out += '['; unsigned n = 0;
		for (unsigned Y = 0; Y < im.height() && n < 3; ++Y) { auto q = static_cast<const uint8_t*>(im.scanline(Y)); if (memcmp(q, &old[Y*row], row) == 0) continue;
			for (unsigned X = 0; X < im.width() && n < 3; ++X) if (memcmp(q + size_t(X)*bytes, &old[Y*row + size_t(X)*bytes], bytes)) { jsep(); out += '[' + std::to_string(X) + ',' + std::to_string(Y) + ']'; ++n; } }
		out += ']';
		ColorRGBAd d = {9, 9, 9, 9}; bool got = im.getPixel(d, x, y); jb("got", got);
		jkey("px"); out += '[' + std::to_string(fix(d.r)) + ',' + std::to_string(fix(d.g)) + ',' + std::to_string(fix(d.b)) + ',' + std::to_string(fix(d.a)) + ']';
		jkey("b"); out += '['; if (ret && x < im.width() && y < im.height()) for (unsigned k = 0; k < bytes; ++k) { if (k) out += ','; out += std::to_string(static_cast<const uint8_t*>(im.scanline(y))[size_t(x)*bytes + k]); } out += ']';
		return true;
	}
	if (op == "iget") { long i = N(); unsigned x = U(), y = U(); ColorRGBAd c = {9, 9, 9, 9}; bool ok = images[i].getPixel(c, x, y); ji("i", i); ji("x", x > 100000 ? -1 : static_cast<long>(x)); ji("y", y > 100000 ? -1 : static_cast<long>(y)); jb("ret", ok);
		jkey("px"); out += '[' + std::to_string(fix(c.r)) + ',' + std::to_string(fix(c.g)) + ',' + std::to_string(fix(c.b)) + ',' + std::to_string(fix(c.a)) + ']'; exactColour(c); return true; }
	if (op == "idump") { long i = N(); ji("i", i); imgState(images[i], "st"); imgPixels(images[i], "px"); return true; }
	if (op == "iraw") { long i = N(); const Image& im = images[i]; ji("i", i); imgState(im, "st"); imgParts(im, true); jkey("rows"); out += '[';
		for (unsigned y = 0; y < partH(im); ++y) { jsep(); string k; const uint8_t* b = static_cast<const uint8_t*>(im.scanline(y)); out += '['; for (unsigned q = 0; q < partW(im)*fmtBytes(im.format()); ++q) { if (q) out += ','; out += std::to_string(b[q]); } out += ']'; }
		out += ']'; return true; }
	// exact integer values of the pixels (integer and normalised formats), per pixel 16-bit halves of the stored channels
	if (op == "iconv") { long d = N(), s = N(); auto f = static_cast<Image::Format>(N()); bool g = N() != 0; Image r = IMG(s).convert(f, g); images[d] = std::move(r);
		ji("i", d); ji("src", s); ji("to", static_cast<long>(f)); jb("gray", g); imgState(images[d], "st"); return true; }
	if (op == "iresize") { long d = N(), s = N(); unsigned w = U(), h = U(); auto f = static_cast<Image::ResizeFilter>(N()); Image r = IMG(s).resize(w, h, f); images[d] = std::move(r);
		ji("i", d); ji("src", s); imgState(images[d], "st"); return true; }
	if (op == "irotate") { long d = N(), s = N(); auto a = static_cast<Image::RotateAngle>(N()); Image r = IMG(s).rotate(a); images[d] = std::move(r);
		ji("i", d); ji("src", s); ji("ang", static_cast<long>(a)); imgState(images[d], "st"); return true; }
	if (op == "iflipx") { long i = N(); bool r = images[i].flipHorizontal(); ji("i", i); jb("ret", r); imgState(images[i], "st"); return true; }
	if (op == "iflipy") { long i = N(); bool r = images[i].flipVertical(); ji("i", i); jb("ret", r); imgState(images[i], "st"); return true; }
	if (op == "ipremul") { long i = N(); bool r = images[i].preMultiplyAlpha(); ji("i", i); jb("ret", r); imgState(images[i], "st"); return true; }
	if (op == "igray") { long i = N(); bool r = images[i].grayscale(); ji("i", i); jb("ret", r); imgState(images[i], "st"); return true; }
	if (op == "ics") { long i = N(); auto cs = static_cast<ColorSpace>(N()); bool r = images[i].changeColorSpace(cs); ji("i", i); ji("to", static_cast<long>(cs)); jb("ret", r); imgState(images[i], "st"); return true; }
	if (op == "iswz") { long i = N(); Image::Channel c[4]; long v[4]; for (int k = 0; k < 4; ++k) { v[k] = N(); c[k] = static_cast<Image::Channel>(v[k]); }
		bool r = images[i].swizzle(c[0], c[1], c[2], c[3]); ji("i", i); jkey("sel"); out += '[' + std::to_string(v[0]) + ',' + std::to_string(v[1]) + ',' + std::to_string(v[2]) + ',' + std::to_string(v[3]) + ']'; jb("ret", r); imgState(images[i], "st"); return true; }
	if (op == "inormal") { long d = N(), s = N(); auto o = static_cast<Image::NormalOptions>(N()); double h = D(); auto f = static_cast<Image::Format>(N()); Image r = images[s].createNormalMap(o, h, f); images[d] = std::move(r);
		ji("i", d); ji("src", s); imgState(images[d], "st"); return true; }
	if (op == "icopy") { long d = N(), s = N(); Image& dr = images[d]; const Image& sr = images[s]; if (&dr == &sr) exit(91); Image c(sr); dr.~Image(); new (&dr) Image(std::move(c)); ji("i", d); ji("src", s); return true; }
	if (op == "iassign") { long d = N(), s = N(); Image& dr = images[d]; const Image& sr = images[s]; dr = sr; ji("i", d); ji("src", s); return true; }
	if (op == "imove") { long d = N(), s = N(); Image& dr = images[d]; Image& sr = images[s]; if (&dr == &sr) exit(91); dr.~Image(); new (&dr) Image(std::move(sr)); ji("i", d); ji("src", s); return true; }
	if (op == "imoveassign") { long d = N(), s = N(); images[d] = std::move(images[s]); ji("i", d); ji("src", s); return true; }
	if (op == "ihash") { long i = N(); ji("i", i); ji("h", imgHash(images[i])); imgState(images[i], "st"); return true; }
	if (op == "iadjust") { long i = N(); auto t = static_cast<Texture::Type>(N()); auto f = static_cast<Image::Format>(N()); Texture::adjustImageValueRange(images[i], t, f); ji("i", i); ji("type", static_cast<long>(t)); ji("orig", static_cast<long>(f)); imgState(images[i], "st"); return true; }
	if (op == "iload") // iload i how path cs [maxbytes]
	{
		long i = N(); string how = S(); string path = S(); auto cs = static_cast<ColorSpace>(N()); long lim = more() ? N() : -1;
		Image& im = images[i]; bool r = false;
		std::vector<char> d;
		if (how != "file") { d = slurp(path); if (lim >= 0 && static_cast<size_t>(lim) < d.size()) d.resize(static_cast<size_t>(lim)); }
		if (how == "file") r = im.load(path.c_str(), cs);
		else if (how == "mem") { std::unique_ptr<char[]> b(new char[d.size() + 1]); if (!d.empty()) memcpy(b.get(), d.data(), d.size()); r = im.load(b.get(), d.size(), cs); }
		else if (how == "stream") { std::stringstream ss(string(d.begin(), d.end()), std::ios::in | std::ios::out | std::ios::binary); r = im.load(ss, cs); }
		else if (how == "fstream") { std::ifstream fs(path, std::ios::binary); r = im.load(fs, cs); }
		else if (how == "offset") { string pre = "JUNKJUNK"; std::stringstream ss(pre + string(d.begin(), d.end()), std::ios::in | std::ios::out | std::ios::binary); ss.seekg(8); r = im.load(ss, cs); }
		else if (how.compare(0, 4, "pipe") == 0) { PipeBuf pb(d, how.size() > 4 ? static_cast<size_t>(atoi(how.c_str() + 4)) : 100); std::istream is(&pb); r = im.load(is, cs); }
		else if (how == "ctorfile") { im = Image(path.c_str(), cs); r = im.isValid(); }
		else if (how == "ctormem") { im = Image(d.data(), d.size(), cs); r = im.isValid(); }
		else if (how == "ctorstream") { std::stringstream ss(string(d.begin(), d.end()), std::ios::in | std::ios::out | std::ios::binary); im = Image(ss, cs); r = im.isValid(); }
		else exit(91);
		ji("i", i); js("how", how); jb("ret", r); imgState(im, "st"); ji("h", imgHash(im)); return true;
	}
	// loads every prefix of a file from each kind of source: [length, [[ret, valid, w, h, cs], ...]]
	if (op == "itrunc") // itrunc i path cs from to step
	{
		long i = N(); string path = S(); auto cs = static_cast<ColorSpace>(N()); long from = N(), to = N(), step = N();
		std::vector<char> full = slurp(path); string cut = path + ".cut";
		ji("i", i); js("path", path); ji("size", static_cast<long>(full.size())); jkey("r"); out += '[';
		for (long k = from; k <= std::min(to, static_cast<long>(full.size())); k += step)
		{
			std::vector<char> d(full.begin(), full.begin() + k);
			jsep(); out += '[' + std::to_string(k) + ",[";
			for (int how = 0; how < 4; ++how)
			{
				Image& im = images[i]; bool r = false;
				if (how == 0) { std::unique_ptr<char[]> b(new char[d.size()]); if (!d.empty()) memcpy(b.get(), d.data(), d.size()); r = im.load(b.get(), d.size(), cs); }
				else if (how == 1) { { std::ofstream f(cut, std::ios::binary); f.write(d.data(), static_cast<std::streamsize>(d.size())); } r = im.load(cut.c_str(), cs); unlink(cut.c_str()); }
				else if (how == 2) { std::stringstream ss(string(d.begin(), d.end()), std::ios::in | std::ios::out | std::ios::binary); r = im.load(ss, cs); }
				else { PipeBuf pb(d, 50); std::istream is(&pb); r = im.load(is, cs); }
				if (how) out += ',';
				out += '[' + string(r ? "true" : "false") + ',' + (im.isValid() ? "true" : "false") + ',' + std::to_string(im.width()) + ',' + std::to_string(im.height()) + ',' + std::to_string(static_cast<long>(im.colorSpace())) + ']';
			}
			out += "]]";
		}
		out += ']'; return true;
	}
	// isave i how name [limit] [path]; how: file name | vec ext dst | stream ext dst | fault ext limit | glitch ext call | flimit name limit | full name | failed ext
	if (op == "isave")
	{
		long i = N(); string how = S(); string path = S();
		Image& im = images[i]; bool r = false; std::vector<uint8_t> v; bool refused = false; long lim = -1; string ext = path.substr(path.rfind('.') == string::npos ? path.size() : path.rfind('.') + 1);
		for (char& c : ext) c = static_cast<char>(tolower(c));
		auto key = std::make_pair(i, static_cast<long>(fnv(ext.data(), ext.size())));
		auto limit = [&](const string& q) -> size_t { return limitOf(q, key.first, key.second); };
		auto keep = [&](const string& dst) { if (r) { std::ofstream f(dst, std::ios::binary); f.write(reinterpret_cast<char*>(v.data()), static_cast<std::streamsize>(v.size())); } };
		if (how == "file") { r = im.save(path.c_str()); std::vector<char> q = slurp(path); v.assign(q.begin(), q.end()); jb("exists", access(path.c_str(), F_OK) == 0); }
		else if (how == "vec") { string dst = S(); v.assign(3, 0xEE); r = im.save(v, path.c_str()); keep(dst); }
		else if (how == "stream") { string dst = S(); std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary); r = im.save(ss, path.c_str()); string q = ss.str(); v.assign(q.begin(), q.end()); keep(dst); }
		else if (how == "failed") { std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary); ss.setstate(std::ios::badbit); r = im.save(ss, path.c_str()); refused = true; lim = 0; }
		else if (how == "full") { unlink(path.c_str()); if (path[0] == '/' || path.find("..") != string::npos || symlink("/dev/full", path.c_str()) != 0) exit(91); r = im.save(path.c_str()); unlink(path.c_str()); refused = true; }
		else if (how == "fault") { lim = static_cast<long>(limit(S())); FaultBuf fb(static_cast<size_t>(lim), true); std::ostream os(&fb); r = im.save(os, path.c_str()); v = fb.data; refused = fb.refused; }
		else if (how == "flimit") { lim = static_cast<long>(limit(S())); { FileLimit fl(static_cast<size_t>(lim)); r = im.save(path.c_str()); } std::vector<char> q = slurp(path); v.assign(q.begin(), q.end()); }
		else exit(91);
		if (r) lastLen[key] = v.size();
		ji("i", i); js("how", how); js("name", path); js("ext", ext); jb("ret", r); ji("len", static_cast<long>(v.size())); ji("h", fnv(v.data(), v.size())); jb("refused", refused); ji("lim", lim); return true;
	}
	// isweep i ext how from to step [path]: [limit, ret, accepted, refused, hash]
	if (op == "isweep")
	{
		long i = N(); string ext = S(); string how = S(); long from = N(); string tos = S(); long step = N(); string path; if (how == "flimit") path = S();
		Image& im = images[i]; string e2 = ext; for (char& c : e2) c = static_cast<char>(tolower(c));
		long to = static_cast<long>(limitOf(tos, i, static_cast<long>(fnv(e2.data(), e2.size())))); string name = "x." + ext;
		ji("i", i); js("ext", e2); js("how", how); ji("from", from); ji("to", to); ji("step", step); jkey("r"); out += '[';
		for (long k = from; k <= to; k += step)
		{
			bool r = false, refused = false; std::vector<uint8_t> v;
			if (how == "fault" || how == "noseek") { FaultBuf fb(static_cast<size_t>(k), how == "fault"); std::ostream os(&fb); r = im.save(os, name.c_str()); v = fb.data; refused = fb.refused; }
			else if (how == "glitch") { GlitchBuf fb(k); std::ostream os(&fb); r = im.save(os, name.c_str()); v = fb.data; refused = fb.refused; }
			else if (how == "flimit") { { FileLimit fl(static_cast<size_t>(k)); r = im.save(path.c_str()); } std::vector<char> q = slurp(path); v.assign(q.begin(), q.end()); unlink(path.c_str()); }
			else exit(91);
			jsep(); out += '[' + std::to_string(k) + ',' + (r ? "true" : "false") + ',' + std::to_string(v.size()) + ',' + (refused ? "true" : "false") + ',' + std::to_string(fnv(v.data(), v.size())) + ']';
		}
		out += ']'; return true;
	}
	// ---------------- custom mips ----------------
	if (op == "cmref") { long c = N(), i = N(); auto r = static_cast<Texture::MipReplacement>(N()); cmips[c].reset(new CM(IMG(i), r)); cmMoved[c] = false; ji("c", c); ji("i", i); ji("r", static_cast<long>(r)); return true; }
	if (op == "cmown") { long c = N(), i = N(); auto r = static_cast<Texture::MipReplacement>(N()); Image cp(IMG(i)); cmips[c].reset(new CM(std::move(cp), r)); cmMoved[c] = false; ji("c", c); ji("i", i); ji("r", static_cast<long>(r)); return true; }
	if (op == "cmcopy") { long d = N(), s = N(); std::unique_ptr<CM> n(new CM(*cmips.at(s))); cmips[d] = std::move(n); cmMoved[d] = false; ji("c", d); ji("src", s); return true; }
	if (op == "cmmove") { long d = N(), s = N(); std::unique_ptr<CM> n(new CM(std::move(*cmips.at(s)))); cmips[d] = std::move(n); cmMoved[d] = false; if (d != s) cmMoved[s] = true; ji("c", d); ji("src", s); return true; }
	if (op == "cmassign") { long d = N(), s = N(); *cmips.at(d) = *cmips.at(s); cmMoved[d] = cmMoved[s]; ji("c", d); ji("src", s); return true; }
	if (op == "cmmoveassign") { long d = N(), s = N(); CM& src = *cmips.at(s); *cmips.at(d) = std::move(src); if (d != s) { cmMoved[d] = false; cmMoved[s] = true; } ji("c", d); ji("src", s); return true; }
	if (op == "cmdel") { long c = N(); cmips.erase(c); ji("c", c); return true; }
	if (op == "cmstate") { jkey("cm"); out += '['; for (auto& kv : cmips) { jsep(); out += '{'; ji("c", kv.first); bool mv = cmMoved[kv.first]; jb("moved", mv); if (mv) { out += '}'; continue; } ji("r", static_cast<long>(kv.second->replacement)); jb("own", kv.second->image == &kv.second->imageStorage);
			jb("ok", kv.second->image != nullptr && kv.second->image->isValid()); ji("h", kv.second->image ? imgHash(*kv.second->image) : -1); out += '}'; } out += ']'; return true; }
	// ---------------- textures ----------------
	if (op == "tinit") { long t = N(); auto dim = static_cast<Texture::Dimension>(N()); unsigned w = U(), h = U(), d = U(), m = U(); auto cs = static_cast<ColorSpace>(N());
		bool r = textures[t].initialize(dim, w, h, d, m, cs); ji("t", t); jb("ret", r); return true; }
	if (op == "tctor") { long t = N(); auto dim = static_cast<Texture::Dimension>(N()); unsigned w = U(), h = U(), d = U(), m = U(); auto cs = static_cast<ColorSpace>(N());
		textures[t] = Texture(dim, w, h, d, m, cs); ji("t", t); return true; }
	if (op == "treset") { long t = N(); textures[t].reset(); ji("t", t); return true; }
	if (op == "tcopy") { long d = N(), s = N(); Texture c(textures[s]); textures.erase(d); textures.emplace(d, std::move(c)); ji("t", d); ji("src", s); return true; }
	if (op == "tassign") { long d = N(), s = N(); Texture& dr = textures[d]; const Texture& sr = textures[s]; dr = sr; ji("t", d); ji("src", s); return true; }
	if (op == "tmove") { long d = N(), s = N(); Texture c(std::move(textures[s])); textures.erase(d); textures.emplace(d, std::move(c)); ji("t", d); ji("src", s); return true; }
	if (op == "tmoveassign") { long d = N(), s = N(); textures[d] = std::move(textures[s]); ji("t", d); ji("src", s); return true; }
	if (op == "tsetall") // tsetall t faces levels depth is3d w h: a colour of its own for every image
	{
		long t = N(); unsigned faces = U(), levels = U(), depth = U(), is3d = U(), w = U(), h = U(); Texture& T = textures[t]; bool r = true;
		for (unsigned m = 0; m < levels; ++m) for (unsigned d = 0; d < (is3d ? std::max(depth >> m, 1u) : depth); ++d) for (unsigned f = 0; f < faces; ++f)
		{
			unsigned lw = std::max(w >> m, 1u), lh = std::max(h >> m, 1u);
			Image I(Image::Format::RGBAF, lw, lh, T.colorSpace());
			for (unsigned y = 0; y < lh; ++y) for (unsigned x = 0; x < lw; ++x)
			{
				double v = ((37*f + 11*m + 101*d + d/256 + 13*x + 7*y) & 255)/255.0;
				I.setPixel(x, y, ColorRGBAd(v, v, v, v));
			}
			r = T.setImage(std::move(I), static_cast<Texture::CubeFace>(f), m, d) && r;
		}
		ji("t", t); jb("ret", r); return true;
	}
	if (op == "tdatas") // tdatas t faces levels depth is3d: the data of all surfaces
	{
		long t = N(); unsigned faces = U(), levels = U(), depth = U(), is3d = U(); const Texture& T = textures[t]; ji("t", t); jkey("s"); out += '['; bool first = true;
		for (unsigned m = 0; m < levels; ++m) for (unsigned d = 0; d < (is3d ? std::max(depth >> m, 1u) : depth); ++d) for (unsigned f = 0; f < faces; ++f)
		{
			auto fc = static_cast<Texture::CubeFace>(f); const uint8_t* b = static_cast<const uint8_t*>(T.data(fc, m, d)); size_t n = b ? T.dataSize(fc, m, d) : 0;
			if (!first) out += ','; first = false;
			out += "{\"f\":" + std::to_string(f) + ",\"m\":" + std::to_string(m) + ",\"d\":" + std::to_string(d) + ",\"b\":[";
			for (size_t i = 0; i < n; ++i) { if (i) out += ','; out += std::to_string(b[i]); }
			out += "]}";
		}
		out += ']'; return true;
	}
	if (op == "tset") // tset t variant img face mip depth ; variant: c m (no face) fc fm (face)
	{
		long t = N(); string v = S(); long i = N(); auto f = static_cast<Texture::CubeFace>(N()); unsigned m = U(), d = U(); bool r;
		Texture& T = textures[t]; Image& I0 = images[i];
		if (v == "c") r = T.setImage(static_cast<const Image&>(I0), m, d);
		else if (v == "m") { Image c(I0); r = T.setImage(std::move(c), m, d); }
		else if (v == "fc") r = T.setImage(static_cast<const Image&>(I0), f, m, d);
		else if (v == "fm") { Image c(I0); r = T.setImage(std::move(c), f, m, d); }
		else exit(91);
		ji("t", t); jb("ret", r); return true;
	}
	if (op == "tgen") // tgen t filter levels {face mip depth cslot}...
	{
		long t = N(); auto f = static_cast<Image::ResizeFilter>(N()); unsigned m = U(); Texture::CustomMipImages c;
		while (more()) { auto fc = static_cast<Texture::CubeFace>(N()); unsigned mm = U(), dd = U(); long k = N(); c.emplace(Texture::ImageIndex(fc, mm, dd), *cmips.at(k)); }
		bool r = textures[t].generateMipmaps(f, m, c); ji("t", t); jb("ret", r); return true;
	}
	if (op == "tconv") // tconv t fmt type quality alpha mask threads
	{
		long t = N(); auto f = static_cast<Texture::Format>(N()); auto ty = static_cast<Texture::Type>(N()); auto q = static_cast<Texture::Quality>(N()); auto al = static_cast<Texture::Alpha>(N()); long mk = N(); unsigned th = U();
		bool r = textures[t].convert(f, ty, q, al, Texture::ColorMask(mk & 1, (mk >> 1) & 1, (mk >> 2) & 1, (mk >> 3) & 1), th); ji("t", t); jb("ret", r); return true;
	}
	if (op == "tfree") // tfree t fmt type quality alpha mask threads... : the same conversion with several numbers of threads
	{
		long t = N(); auto f = static_cast<Texture::Format>(N()); auto ty = static_cast<Texture::Type>(N()); auto q = static_cast<Texture::Quality>(N()); auto al = static_cast<Texture::Alpha>(N()); long mk = N();
		std::vector<std::pair<bool, string>> res;
		while (more())
		{
			Texture c(textures[t]);
			bool r = c.convert(f, ty, q, al, Texture::ColorMask(mk & 1, (mk >> 1) & 1, (mk >> 2) & 1, (mk >> 3) & 1), U());
			uint64_t h = 1469598103934665603ull;
			for (unsigned m = 0; m < c.mipLevelCount(); ++m) for (unsigned d = 0; d < c.depth(m); ++d) for (unsigned k = 0; k < c.faceCount(); ++k)
			{
				const void* p = c.data(static_cast<Texture::CubeFace>(k), m, d); size_t n = c.dataSize(static_cast<Texture::CubeFace>(k), m, d);
				h = h*1099511628211ull ^ (p ? fnv(p, n) : 7) ^ n;
			}
			res.emplace_back(r, std::to_string(h));
		}
		jkey("ok"); out += '['; for (auto& r : res) { jsep(); out += r.first ? "true" : "false"; } out += ']';
		jkey("h"); out += '['; for (auto& r : res) { jsep(); out += '"' + r.second + '"'; } out += ']';
		return true;
	}
	if (op == "tstate") { long t = N(); ji("t", t); texState(textures[t], "st", false); return true; }
	if (op == "thash") { long t = N(); ji("t", t); size_t b0 = out.size(); texState(textures[t], "st", true); ji("h", fnv(out.data() + b0, out.size() - b0)); return true; }
	if (op == "tpix") // pixel (x,y) of every image in fix-point: imgs[mip][depth][face]
	{
		long t = N(); const Texture& T = textures[t]; ji("t", t); ji("mips", T.mipLevelCount()); jkey("px"); out += '[';
		for (unsigned i = 0; i < T.mipLevelCount(); ++i) { jsep(); out += '['; for (unsigned d = 0; d < T.depth(i); ++d) { jsep(); out += '['; for (unsigned k = 0; k < T.faceCount(); ++k) {
			const Image& im = T.getImage(static_cast<Texture::CubeFace>(k), i, d); jsep(); out += '{'; ji("w", im.width()); ji("h", im.height()); ji("cs", static_cast<long>(im.colorSpace())); ji("f", static_cast<long>(im.format()));
			// minimum and maximum over the image, so that a spec can check constancy
			double mn[4] = {1e9, 1e9, 1e9, 1e9}, mx[4] = {-1e9, -1e9, -1e9, -1e9};
			for (unsigned y = 0; y < im.height(); ++y) for (unsigned x = 0; x < im.width(); ++x) { ColorRGBAd c; if (!im.getPixel(c, x, y)) continue; double v[4] = {c.r, c.g, c.b, c.a}; for (int q = 0; q < 4; ++q) { mn[q] = std::min(mn[q], v[q]); mx[q] = std::max(mx[q], v[q]); } }
			jkey("lo"); out += '['; for (int q = 0; q < 4; ++q) { if (q) out += ','; out += std::to_string(fix(mn[q])); } out += ']';
			jkey("hi"); out += '['; for (int q = 0; q < 4; ++q) { if (q) out += ','; out += std::to_string(fix(mx[q])); } out += ']';
			out += '}'; } out += ']'; } out += ']'; }
		out += ']'; return true;
	}
	if (op == "tdata") { long t = N(); auto f = static_cast<Texture::CubeFace>(N()); unsigned m = U(), d = U(); const Texture& T = textures[t]; ji("t", t); ji("f", static_cast<long>(f)); ji("m", m); ji("d", d); jbytes("b", T.data(f, m, d), T.dataSize(f, m, d)); return true; }
	if (op == "tper") // tper t f m d bs w h: the first 13 x 11 blocks, and where the rest isn't their repetition
	{
		long t = N(); auto f = static_cast<Texture::CubeFace>(N()); unsigned m = U(), d = U(), bs = U(), w = U(), h = U(); const Texture& T = textures[t];
		ji("t", t); ji("f", static_cast<long>(f)); ji("m", m); ji("d", d);
		const uint8_t* b = static_cast<const uint8_t*>(T.data(f, m, d)); size_t sz = T.dataSize(f, m, d); ji("size", sz);
		string tile, diff; long count = 0;
		std::vector<uint8_t> tb;
		if (b && sz == static_cast<size_t>(w)*h*bs)
			for (unsigned y = 0; y < h; ++y) for (unsigned x = 0; x < w; ++x)
			{
				const uint8_t* p = b + (static_cast<size_t>(y)*w + x)*bs;
				if (x < 13 && y < 11) { tb.insert(tb.end(), p, p + bs); continue; }
				if (memcmp(p, b + (static_cast<size_t>(y % 11)*w + x % 13)*bs, bs) != 0 && ++count <= 3)
					diff += (diff.empty() ? "[" : ",[") + std::to_string(x) + "," + std::to_string(y) + "]";
			}
		jbytes("b", tb.data(), tb.size()); ji("count", count); jkey("diff"); out += "[" + diff + "]"; return true;
	}
	if (op == "tsave") // tsave t filetype how [args] ; how: vec | stream | file path | fault k | late k | null
	{
		long t = N(); auto ft = static_cast<Texture::FileType>(N()); string how = S(); Texture& T = textures[t]; Texture::SaveResult r; std::vector<uint8_t> v; bool refused = false; long lim = -1;
		bool dump = true;
		if (how == "vec") { v.assign(5, 0xEE); r = T.save(v, ft); if (r != Texture::SaveResult::Success && v == std::vector<uint8_t>(5, 0xEE)) v.clear(); }
		else if (how == "stream") { std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary); r = T.save(ss, ft); string q = ss.str(); v.assign(q.begin(), q.end()); }
		else if (how == "file") { string path = S(); r = T.save(path.c_str(), ft); std::vector<char> q = slurp(path); v.assign(q.begin(), q.end()); jb("exists", access(path.c_str(), F_OK) == 0); }
		else if (how == "full") { r = T.save("/dev/full", ft); dump = false; }
		else if (how == "null") { r = T.save(static_cast<const char*>(nullptr), ft); }
		else if (how == "append") { std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary); ss << "PREFIX"; r = T.save(ss, ft); string q = ss.str(); bool pre = q.compare(0, 6, "PREFIX") == 0; jb("prefix", pre); v.assign(q.begin() + (pre ? 6 : 0), q.end()); }
		else if (how == "failed") { std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary); ss.setstate(std::ios::badbit); r = T.save(ss, ft); string q = ss.str(); v.assign(q.begin(), q.end()); refused = true; lim = 0; }
		else if (how == "flimit") { lim = static_cast<long>(limitOf(S(), t, static_cast<long>(ft))); string path = S(); { FileLimit fl(static_cast<size_t>(lim)); r = T.save(path.c_str(), ft); } std::vector<char> q = slurp(path); v.assign(q.begin(), q.end()); jb("exists", access(path.c_str(), F_OK) == 0); }
		else if (how == "fault") { lim = static_cast<long>(limitOf(S(), t, static_cast<long>(ft))); FaultBuf fb(static_cast<size_t>(lim), false); std::ostream os(&fb); r = T.save(os, ft); v = fb.data; refused = fb.refused; dump = false; }
		else if (how == "glitch") { lim = N(); GlitchBuf fb(lim); std::ostream os(&fb); r = T.save(os, ft); v = fb.data; refused = fb.refused; dump = false; }
		else if (how == "late") { lim = N(); LateBuf fb(static_cast<size_t>(lim)); std::ostream os(&fb); r = T.save(os, ft); v = fb.data; refused = fb.refused; dump = false; }
		else exit(91);
		if (more() && S() == "nodump") dump = false;
		ji("t", t); ji("ft", static_cast<long>(ft)); js("how", how); ji("res", static_cast<long>(r)); ji("len", static_cast<long>(v.size())); jb("refused", refused); ji("lim", lim);
		ji("h", fnv(v.data(), v.size()));
		if (r == Texture::SaveResult::Success) lastLen[std::make_pair(t, static_cast<long>(ft))] = v.size();
		if (dump) jbytes("b", v.data(), v.size());
		return true;
	}
	// tsweep t filetype how from to step [path]: saves once per limit (or write call for glitch);
	// [limit, result, bytes accepted, refused, hash]; how: fault | seek | glitch | flimit
	if (op == "tsweep")
	{
		long t = N(); auto ft = static_cast<Texture::FileType>(N()); string how = S(); long from = N(); string tos = S(); long to = static_cast<long>(limitOf(tos, t, static_cast<long>(ft))), step = N();
		string path; if (how == "flimit") path = S();
		Texture& T = textures[t];
		ji("t", t); ji("ft", static_cast<long>(ft)); js("how", how); ji("from", from); ji("to", to); ji("step", step); jkey("r"); out += '[';
		for (long k = from; k <= to; k += step)
		{
			Texture::SaveResult r; bool refused = false; std::vector<uint8_t> v;
			if (how == "fault" || how == "seek") { FaultBuf fb(static_cast<size_t>(k), how == "seek"); std::ostream os(&fb); r = T.save(os, ft); v = fb.data; refused = fb.refused; }
			else if (how == "glitch") { GlitchBuf fb(k); std::ostream os(&fb); r = T.save(os, ft); v = fb.data; refused = fb.refused; }
			else if (how == "flimit") { { FileLimit fl(static_cast<size_t>(k)); r = T.save(path.c_str(), ft); } std::vector<char> q = slurp(path); v.assign(q.begin(), q.end()); }
			else exit(91);
			jsep(); out += '[' + std::to_string(k) + ',' + std::to_string(static_cast<long>(r)) + ',' + std::to_string(v.size()) + ',' + (refused ? "true" : "false") + ',' + std::to_string(fnv(v.data(), v.size())) + ']';
		}
		out += ']'; return true;
	}
	if (op == "fput") { string path = S(); string txt = S(); std::ofstream f(path, std::ios::binary); f << txt; js("path", path); f.close(); std::vector<char> q = slurp(path); ji("len", static_cast<long>(q.size())); ji("h", fnv(q.data(), q.size())); return true; }
	if (op == "fdel") { string path = S(); if (path[0] == '/' || path.find("..") != string::npos) exit(91); unlink(path.c_str()); js("path", path); return true; }
	if (op == "fstat") { string path = S(); std::vector<char> q = slurp(path); js("path", path); jb("exists", access(path.c_str(), F_OK) == 0); ji("len", static_cast<long>(q.size())); ji("h", fnv(q.data(), q.size())); return true; }
	if (op == "fdir") { string path = S(); if (path[0] == '/' || path.find("..") != string::npos) exit(91); mkdir(path.c_str(), 0755); js("path", path); return true; }
	if (op == "finfo") { auto f = static_cast<Texture::Format>(N()); ji("f", static_cast<long>(f));
		jkey("ok"); out += '['; for (int t = 0; t < 6; ++t) { jsep(); out += std::to_string(Texture::isFormatValid(f, static_cast<Texture::Type>(t))); } out += ']';
		jkey("file"); out += '['; for (int t = 0; t < 6; ++t) { jsep(); out += '['; for (int q = 0; q < 4; ++q) { jsep(); out += std::to_string(Texture::isFormatValid(f, static_cast<Texture::Type>(t), static_cast<Texture::FileType>(q))); } out += ']'; } out += ']';
		jkey("srgb"); out += '['; for (int t = 0; t < 6; ++t) { jsep(); out += std::to_string(Texture::hasNativeSRGB(f, static_cast<Texture::Type>(t))); } out += ']';
		jb("alpha", Texture::hasAlpha(f)); ji("bw", Texture::blockWidth(f)); ji("bh", Texture::blockHeight(f)); ji("bs", Texture::blockSize(f)); ji("mw", Texture::minWidth(f)); ji("mh", Texture::minHeight(f)); return true; }
	if (op == "maxmips") { auto d = static_cast<Texture::Dimension>(N()); unsigned w = U(), h = U(), dd = U(); ji("dim", static_cast<long>(d)); ji("w", w); ji("h", h); ji("d", dd); ji("ret", Texture::maxMipmapLevels(d, w, h, dd)); return true; }
	if (op == "ftype") { string s = more() ? S() : string(); js("name", s); ji("ret", static_cast<long>(Texture::fileType(s.c_str()))); return true; }
	fprintf(stderr, "unknown op %s\n", op.c_str()); exit(92);
}
