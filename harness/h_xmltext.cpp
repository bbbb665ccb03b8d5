// C18: base64, CRC-32 and the text <-> XML encoding.
#include "mon.h"
#include "FCollada.h"
#include "FUtils/FUBase64.h"
#include "FUtils/FUCrc32.h"
#include "FUtils/FUXmlDocument.h"
#include "FUtils/FUXmlWriter.h"
#include "FUtils/FUXmlParser.h"
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <unistd.h>

typedef std::string S;

static S rndBytes(Rng& r, int maxLen) { S s; int n = r.chance(5) ? r.range(0, maxLen * 20) : r.range(0, maxLen); for (int i = 0; i < n; ++i) s += (char) r.range(0, 255); return s; }
static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static S refEncode(const S& in)
{
	S o; size_t i = 0;
	for (; i + 3 <= in.size(); i += 3) { uint32_t v = ((uint8_t) in[i] << 16) | ((uint8_t) in[i + 1] << 8) | (uint8_t) in[i + 2]; for (int k = 18; k >= 0; k -= 6) o += AL[(v >> k) & 63]; }
	if (in.size() - i == 1) { uint32_t v = (uint8_t) in[i] << 16; o += AL[v >> 18]; o += AL[(v >> 12) & 63]; o += "=="; }
	else if (in.size() - i == 2) { uint32_t v = ((uint8_t) in[i] << 16) | ((uint8_t) in[i + 1] << 8); o += AL[v >> 18]; o += AL[(v >> 12) & 63]; o += AL[(v >> 6) & 63]; o += '='; }
	return o;
}
static void toList(const S& s, UInt8List& l) { l.clear(); for (char c : s) l.push_back((uint8) c); }
static S toS(const UInt8List& l) { S s; for (size_t i = 0; i < l.size(); ++i) s += (char) l[i]; return s; }

static void base64(Rng& r)
{
	S data = rndBytes(r, 40); UInt8List in, enc, dec; toList(data, in);
	mon::sig(data);
	enc.push_back(7); dec.push_back(9);
	FUBase64::encode(in, enc);
	CHECK(toS(enc) == refEncode(data), "base64:encode", "%zu bytes -> '%s', expected '%s'", data.size(), mon::esc(toS(enc)).c_str(), refEncode(data).c_str());
	FUBase64::decode(enc, dec);
	CHECK(toS(dec) == data, "base64:round-trip", "%zu bytes -> %zu", data.size(), dec.size());
	// Line breaks and blanks are not part of the encoding.
	S spaced; for (char c : refEncode(data)) { if (r.chance(15)) spaced += r.chance(50) ? '\n' : ' '; spaced += c; }
	if (r.chance(40)) spaced += "\r\n";
	toList(spaced, in); FUBase64::decode(in, dec);
	CHECK(toS(dec) == data, "base64:blanks", "'%s' -> %zu bytes, expected %zu", mon::esc(spaced).c_str(), dec.size(), data.size());
	// Malformed text.
	S bad = r.chance(50) ? rndBytes(r, 20) : refEncode(data);
	if (!bad.empty()) for (int k = r.range(1, 3); k > 0; --k) { size_t p = r.below(bad.size()); switch (r.below(3)) { case 0: bad[p] = (char) r.range(0, 255); break; case 1: bad.erase(p, 1); break; default: bad.insert(p, 1, '='); } if (bad.empty()) break; }
	toList(bad, in); FUBase64::decode(in, dec);
	CHECK(dec.size() <= bad.size() / 4 * 3, "base64:malformed-size", "%zu characters -> %zu bytes", bad.size(), dec.size());
	mon::hit("base64_sequences", 3);
}

static void crc(Rng& r)
{
	S t; int n = r.chance(10) ? r.range(0, 2000) : r.range(0, 60); for (int i = 0; i < n; ++i) t += (char) r.range(1, 255);
	uint32_t c = 0xffffffffu;
	for (unsigned char b : t) { c ^= b; for (int k = 0; k < 8; ++k) c = (c >> 1) ^ (c & 1 ? 0xEDB88320u : 0); }
	c ^= 0xffffffffu;
	uint32_t got = (uint32_t) FUCrc32::CRC32(t.c_str());
	mon::sig(t); mon::hit("checksums");
	CHECK(got == c, "crc", "'%s' -> %08x, expected %08x", mon::esc(t).c_str(), got, c);
	CHECK((uint32_t) FUCrc32::CRC32("123456789") == 0xCBF43926u, "crc:standard", "the check value differs");
}

static S rndText(Rng& r)
{
	S s; int n = r.chance(5) ? r.range(0, 600) : r.range(0, 24); int mode = r.range(0, 4);
	static const char* tricky[] = { "%", "%4", "%41", "%zz", "%%", "<", ">", "&", "&amp;", "]]>", "\"", "'", "\n", "\t", "\r", " ", "  ", "\xc3\xa9", "\xe2\x82\xac", "\xff", "\x01", "\x7f", "0x41", "%0x41", "#", "&#65;" };
	for (int i = 0; i < n; ++i)
	{
		if (mode == 0) s += (char) r.range(32, 126);
		else if (mode == 1) s += (char) r.range(1, 255);
		else if (mode == 2 || r.chance(40)) s += tricky[r.below(sizeof(tricky) / sizeof(*tricky))];
		else s += (char) ('a' + r.below(26));
	}
	return s;
}

static S percentDecode(const char* p)
{
	S o; for (; *p; ++p) if (*p == '%' && isxdigit((unsigned char) p[1]) && isxdigit((unsigned char) p[2])) { o += (char) strtol(S(p + 1, 2).c_str(), 0, 16); p += 2; } else o += *p;
	return o;
}

static void xmlText(Rng& r)
{
	struct Item { S attr, content; bool sorted; };
	std::vector<Item> items; int n = r.range(1, 12);
	S file = mon::tmpDir + "/text.xml";
	{
		FUXmlDocument doc(NULL, file.c_str(), false);
		xmlNode* root = doc.CreateRootNode("root");
		for (int i = 0; i < n; ++i)
		{
			Item it; it.attr = rndText(r); it.content = rndText(r); mon::sig(it.attr); mon::sig(it.content);
			xmlNode* c;
			switch (r.below(3))
			{
			case 0: c = FUXmlWriter::AddChild(root, "item", it.content.c_str()); break;
			case 1: c = FUXmlWriter::AddChild(root, "item"); FUXmlWriter::AddContent(c, fm::string(it.content.c_str())); break;
			default: { c = FUXmlWriter::AddChild(root, "item"); size_t cut = r.below(it.content.size() + 1); while (cut < it.content.size() && cut > 0) { bool inEsc = false; for (size_t b = cut >= 2 ? cut - 2 : 0; b < cut; ++b) if (it.content[b] == '%') inEsc = true; if (!inEsc) break; ++cut; } FUXmlWriter::AddContent(c, it.content.substr(0, cut).c_str()); FUXmlWriter::AddContent(c, it.content.substr(cut).c_str()); }
			}
			FUXmlWriter::AddAttribute(c, "value", it.attr.c_str());
			items.push_back(it);
		}
		CHECK(doc.Write(), "xml:write", "writing %d items failed", n);
	}
	// Straight with libxml2.
	xmlDoc* x = xmlReadFile(file.c_str(), NULL, XML_PARSE_NOERROR | XML_PARSE_NOWARNING);
	if (!x) mon::viol("xml:well-formed", "the written file does not parse");
	else
	{
		size_t i = 0;
		for (xmlNode* c = xmlDocGetRootElement(x)->children; c; c = c->next)
		{
			if (c->type != XML_ELEMENT_NODE) continue;
			if (i >= items.size()) { ++i; break; }
			xmlChar* a = xmlGetProp(c, (const xmlChar*) "value"); xmlChar* t = xmlNodeGetContent(c);
			CHECK(a && percentDecode((char*) a) == items[i].attr, "xml:attribute-in-file", "attribute '%s' is '%s' in the file", mon::esc(items[i].attr).c_str(), a ? mon::esc((char*) a).c_str() : "(none)");
			CHECK(t && percentDecode((char*) t) == items[i].content, "xml:content-in-file", "content '%s' is '%s' in the file", mon::esc(items[i].content).c_str(), t ? mon::esc((char*) t).c_str() : "(none)");
			xmlFree(a); xmlFree(t); ++i;
		}
		CHECK(i == items.size(), "xml:elements", "%zu elements, expected %zu", i, items.size());
		xmlFreeDoc(x);
	}
	// With the library.
	S bytes; if (FILE* f = fopen(file.c_str(), "rb")) { char b[8192]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) bytes.append(b, k); fclose(f); }
	for (int pass = 0; pass < 3; ++pass)
	{
		FUXmlDocument* in = pass == 0 ? new FUXmlDocument(NULL, file.c_str(), true) : pass == 1 ? new FUXmlDocument(bytes.data(), bytes.size()) : new FUXmlDocument(bytes.c_str(), (size_t) ~0);
		xmlNode* root = in->GetRootNode();
		if (!root) mon::viol("xml:load", "pass %d: no root element", pass);
		else
		{
			xmlNodeList l; FUXmlParser::FindChildrenByType(root, "item", l);
			CHECK(l.size() == items.size(), "xml:find-children", "%zu of %zu items", (size_t) l.size(), items.size());
			for (size_t i = 0; i < l.size() && i < items.size(); ++i)
			{
				fm::string a = FUXmlParser::ReadNodeProperty(l[i], "value"), t = FUXmlParser::ReadNodeContentFull(l[i]);
				CHECK(items[i].attr == a.c_str(), "xml:attribute", "'%s' read back as '%s'", mon::esc(items[i].attr).c_str(), mon::esc(a.c_str()).c_str());
				CHECK(items[i].content == t.c_str(), "xml:content", "'%s' read back as '%s'", mon::esc(items[i].content).c_str(), mon::esc(t.c_str()).c_str());
				CHECK(FUXmlParser::HasNodeProperty(l[i], "value") && !FUXmlParser::HasNodeProperty(l[i], "val"), "xml:has-property", "item %zu", i);
			}
			mon::hit("texts_read_back", items.size() * 2);
		}
		delete in;
	}
	unlink(file.c_str());
}

PROP(C18, "the case encoded and decoded at least one byte sequence or text and compared every result with an independent codec")
{
	mon::nontrivial();
	switch (r.below(3)) { case 0: base64(r); break; case 1: crc(r); break; default: xmlText(r); }
}
