/* The native library as the Python class sees it: answers are a function of the handle's language, its options and the arguments;
   every use of a handle and of a result is checked. Results lie in pages of their own that become inaccessible when freed. */
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <wchar.h>

#define MAXB 4096
enum { K_HANDLE, K_SUGG, K_ERR, K_DESC, K_CSTR, K_ANA, K_DICTS, K_ARR, K_PART };
static const char * KN[] = { "handle", "suggestions", "grammar error", "error message", "string", "analyses", "dictionaries", "string array", "part of a result" };
struct Block { char * p; size_t n; int kind, freed, op, owner; };
static struct Block B[MAXB];
static int nb, calls, fired, op, nfaults, faults[64];
static char violation[512], firedBy[64][48];
static int nfiredBy[64], nkinds, faultedOp[64];

static void bad(const char * f, const char * what) { if (!violation[0]) snprintf(violation, sizeof violation, "%s %s", f, what); }
static int alloc_(size_t n, int kind, int owner, char ** out) {
	if (nb >= MAXB) { bad("stub", "ran out of blocks"); abort(); }
	size_t len = (n + 8 + 4095) / 4096 * 4096;
	char * p = mmap(0, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) abort();
	B[nb] = (struct Block){ p, len, kind, 0, op, owner };
	*out = p;
	return nb++;
}
static int find(const void * p) { for (int i = nb - 1; i >= 0; i--) if (B[i].p == p) return i; return -1; }
static void kill_(int b) {
	B[b].freed = 1;
	mprotect(B[b].p, B[b].n, PROT_NONE);
	for (int i = b + 1; i < nb; i++) if (B[i].owner == b && !B[i].freed) kill_(i);
}
static int live(const char * f, const void * p, int kind) {
	char m[200];
	if (!p) { bad(f, "called with a null pointer"); return -1; }
	int b = find(p);
	if (b < 0) { bad(f, "called with a pointer the native library did not return"); return -1; }
	if (B[b].kind != kind) { snprintf(m, sizeof m, "called with a %s where a %s is wanted", KN[B[b].kind], KN[kind]); bad(f, m); return -1; }
	if (B[b].freed) { snprintf(m, sizeof m, kind == K_HANDLE ? "called with a terminated %s" : "called with a freed %s", KN[kind]); bad(f, m); return -1; }
	return b;
}
static void release(const char * f, void * p, int kind) {
	if (!p) return;
	int b = live(f, p, kind);
	if (b >= 0) kill_(b);
}

struct Handle { char lang[64]; char path[64]; int options[32]; };

void stub_reset(const int * f, int n) {
	for (int i = 0; i < nb; i++) munmap(B[i].p, B[i].n);
	nb = calls = fired = op = 0; violation[0] = 0;
	nfaults = n; memcpy(faults, f, n * sizeof(int));
}
int stub_faulted(int o) { for (int i = 0; i < fired && i < 64; i++) if (faultedOp[i] == o) return 1; return 0; }
void stub_op(int o) { op = o; }
int stub_calls(void) { return calls; }
int stub_fired(void) { return fired; }
const char * stub_violation(void) { return violation; }
int stub_fired_kinds(void) { return nkinds; }
const char * stub_fired_name(int i) { return firedBy[i]; }
int stub_fired_count(int i) { return nfiredBy[i]; }
/* the first block still held, not counting those of operations in skip[] */
int stub_left(int from, int * kind, int * o) {
	for (int i = from; i < nb; i++) if (!B[i].freed && B[i].kind != K_PART) { *kind = B[i].kind; *o = B[i].op; return i; }
	return -1;
}
const char * stub_kind(int k) { return KN[k]; }

static int faulty(const char * f) {
	for (int i = 0; i < nfaults; i++) if (faults[i] == calls) {
		if (fired < 64) faultedOp[fired] = op;
		fired++;
		int k = 0;
		while (k < nkinds && strcmp(firedBy[k], f)) k++;
		if (k == nkinds && nkinds < 64) { snprintf(firedBy[k], 48, "%s", f); nkinds++; }
		nfiredBy[k]++;
		return 1;
	}
	return 0;
}
static uint32_t mix(uint32_t h, uint32_t v) { h ^= v; h *= 16777619u; return h ^ (h >> 13); }
static uint32_t state(const struct Handle * h) {
	uint32_t x = 2166136261u;
	for (const char * c = h->lang; *c; c++) x = mix(x, (unsigned char) *c);
	for (const char * c = h->path; *c; c++) x = mix(x, (unsigned char) *c);
	for (int i = 0; i < 32; i++) x = mix(x, (uint32_t) h->options[i]);
	return x;
}
static uint32_t hw(const struct Handle * h, int f, const wchar_t * w, size_t n) {
	uint32_t x = mix(state(h), f);
	for (size_t i = 0; i < n; i++) x = mix(x, (uint32_t) w[i]);
	return x;
}
static struct Handle * H(const char * f, void * p) {
	calls++;
	int b = live(f, p, K_HANDLE);
	return b < 0 ? 0 : (struct Handle *) B[b].p;
}
static int wstr(const wchar_t * s, int owner, wchar_t ** out) {
	char * p;
	int b = alloc_((wcslen(s) + 1) * sizeof(wchar_t), K_PART, owner, &p);
	memcpy(p, s, (wcslen(s) + 1) * sizeof(wchar_t));
	*out = (wchar_t *) p;
	return b;
}
static char * cstrPart(const char * s, int owner) { char * p; alloc_(strlen(s) + 1, K_PART, owner, &p); strcpy(p, s); return p; }
static char * cstrOf(const char * s, int kind) { char * p; alloc_(strlen(s) + 1, kind, -1, &p); strcpy(p, s); return p; }
static int utf8(char * out, const wchar_t * w, size_t n) {
	char * o = out;
	for (size_t i = 0; i < n; i++) {
		uint32_t c = (uint32_t) w[i];
		if (c < 0x80) *o++ = c;
		else if (c < 0x800) { *o++ = 0xC0 | c >> 6; *o++ = 0x80 | (c & 63); }
		else if (c < 0x10000) { *o++ = 0xE0 | c >> 12; *o++ = 0x80 | (c >> 6 & 63); *o++ = 0x80 | (c & 63); }
		else { *o++ = 0xF0 | c >> 18; *o++ = 0x80 | (c >> 12 & 63); *o++ = 0x80 | (c >> 6 & 63); *o++ = 0x80 | (c & 63); }
	}
	*o = 0;
	return o - out;
}
static size_t decode(wchar_t * out, const char * s) {
	size_t n = 0;
	for (const unsigned char * c = (const unsigned char *) s; *c; ) {
		if (*c < 0x80) out[n++] = *c++;
		else if (*c < 0xE0) { out[n++] = (c[0] & 31) << 6 | (c[1] & 63); c += 2; }
		else if (*c < 0xF0) { out[n++] = (c[0] & 15) << 12 | (c[1] & 63) << 6 | (c[2] & 63); c += 3; }
		else { out[n++] = (c[0] & 7) << 18 | (c[1] & 63) << 12 | (c[2] & 63) << 6 | (c[3] & 63); c += 4; }
	}
	out[n] = 0;
	return n;
}

void * voikkoInit(const char ** error, const char * lang, const char * path) {
	calls++;
	if (faulty("voikkoInit") || (lang && !strcmp(lang, "xx"))) { *error = "Alustus ep\xc3\xa4onnistui"; return 0; }
	char * p;
	alloc_(sizeof(struct Handle), K_HANDLE, -1, &p);
	struct Handle * h = (struct Handle *) p;
	memset(h, 0, sizeof *h);
	snprintf(h->lang, sizeof h->lang, "%s", lang ? lang : "(null)");
	snprintf(h->path, sizeof h->path, "%s", path ? path : "(null)");
	*error = 0;
	return p;
}
void voikkoTerminate(void * p) { calls++; int b = live("voikkoTerminate", p, K_HANDLE); if (b >= 0) kill_(b); }
int voikkoSetBooleanOption(void * p, int o, int v) {
	struct Handle * h = H("voikkoSetBooleanOption", p);
	if (!h || faulty("voikkoSetBooleanOption") || o < 0 || o > 16) return 0;
	if (v != 0 && v != 1) bad("voikkoSetBooleanOption", "called with a value that is neither 0 nor 1");
	h->options[o] = v + 1; return 1;
}
int voikkoSetIntegerOption(void * p, int o, int v) {
	struct Handle * h = H("voikkoSetIntegerOption", p);
	if (!h || faulty("voikkoSetIntegerOption") || (o != 9 && o != 17)) return 0;
	h->options[o] = v; return 1;
}
int voikkoSpellUcs4(void * p, const wchar_t * w) {
	struct Handle * h = H("voikkoSpellUcs4", p);
	if (!h || faulty("voikkoSpellUcs4")) return 2;
	return hw(h, 1, w, wcslen(w)) & 1;
}
wchar_t ** voikkoSuggestUcs4(void * p, const wchar_t * w) {
	struct Handle * h = H("voikkoSuggestUcs4", p);
	if (!h || faulty("voikkoSuggestUcs4")) return 0;
	uint32_t x = hw(h, 2, w, wcslen(w));
	int n = x % 4;
	if (!n && (x >> 8) % 2) return 0; /* otherwise an empty list */
	char * a;
	int b = alloc_((n + 1) * sizeof(wchar_t *), K_SUGG, -1, &a);
	for (int i = 0; i < n; i++) {
		wchar_t t[512];
		swprintf(t, 512, L"%.200ls\u00e4%d-%08x", w, i, x);
		wstr(t, b, (wchar_t **) a + i);
	}
	((wchar_t **) a)[n] = 0;
	return (wchar_t **) a;
}
void voikko_free_suggest_ucs4(wchar_t ** s) { calls++; release("voikko_free_suggest_ucs4", s, K_SUGG); }

struct Err { int code; size_t pos, len; char ** sugg; };
void * voikkoNextGrammarErrorUcs4(void * p, const wchar_t * t, size_t n, size_t start, int skip) {
	struct Handle * h = H("voikkoNextGrammarErrorUcs4", p);
	if (!h || faulty("voikkoNextGrammarErrorUcs4")) return 0;
	if (wcslen(t) != n) bad("voikkoNextGrammarErrorUcs4", "called with a wrong length");
	uint32_t x = hw(h, 3, t, n);
	int count = n ? x % 4 : 0;
	for (int k = 0; k < count; k++) {
		if ((size_t) k < start) continue;
		if (skip-- > 0) continue;
		char * e;
		int b = alloc_(sizeof(struct Err), K_ERR, -1, &e);
		struct Err * er = (struct Err *) e;
		uint32_t y = mix(x, k);
		er->code = 1 + y % 18; er->pos = k; er->len = 1 + (y >> 8) % 3; er->sugg = 0;
		int ns = (y >> 16) % 3;
		if (ns || (y >> 20) % 2) {
			char * a;
			alloc_((ns + 1) * sizeof(char *), K_PART, b, &a);
			er->sugg = (char **) a;
			for (int i = 0; i < ns; i++) { char s[64]; snprintf(s, sizeof s, "ehdotus\xc3\xb6%d-%08x", i, y); er->sugg[i] = cstrPart(s, b); }
			er->sugg[ns] = 0;
		}
		return e;
	}
	return 0;
}
static struct Err * E_(const char * f, void * e) { calls++; int b = live(f, e, K_ERR); return b < 0 ? 0 : (struct Err *) B[b].p; }
int voikkoGetGrammarErrorCode(void * e) { struct Err * r = E_("voikkoGetGrammarErrorCode", e); return r ? r->code : 0; }
size_t voikkoGetGrammarErrorStartPos(void * e) { struct Err * r = E_("voikkoGetGrammarErrorStartPos", e); return r ? r->pos : 0; }
size_t voikkoGetGrammarErrorLength(void * e) { struct Err * r = E_("voikkoGetGrammarErrorLength", e); return r ? r->len : 0; }
char ** voikkoGetGrammarErrorSuggestions(void * e) { struct Err * r = E_("voikkoGetGrammarErrorSuggestions", e); return r ? r->sugg : 0; }
void voikkoFreeGrammarError(void * e) { calls++; release("voikkoFreeGrammarError", e, K_ERR); }
char * voikkoGetGrammarErrorShortDescription(void * e, const char * lang) {
	struct Err * r = E_("voikkoGetGrammarErrorShortDescription", e);
	char s[100];
	if (r && r->code % 6 == 0) s[0] = 0;
	else snprintf(s, sizeof s, "selitys %s %d \xc3\xa4", lang ? lang : "(null)", r ? r->code : 0);
	return cstrOf(s, K_DESC);
}
void voikkoFreeErrorMessageCstr(char * s) { calls++; release("voikkoFreeErrorMessageCstr", s, K_DESC); }
char * voikkoHyphenateUcs4(void * p, const wchar_t * w) {
	struct Handle * h = H("voikkoHyphenateUcs4", p);
	if (!h || faulty("voikkoHyphenateUcs4")) return 0;
	size_t n = wcslen(w);
	uint32_t x = hw(h, 4, w, n);
	char s[1024];
	for (size_t i = 0; i < n && i < 1000; i++) { x = mix(x, i); s[i] = x % 3 ? ' ' : '-'; }
	s[n < 1000 ? n : 1000] = 0;
	return cstrOf(s, K_CSTR);
}
char * voikkoInsertHyphensCstr(void * p, const char * w, const char * sep, int ctx) {
	struct Handle * h = H("voikkoInsertHyphensCstr", p);
	if (!h || faulty("voikkoInsertHyphensCstr") || strlen(w) > 255) return 0;
	wchar_t t[300];
	size_t n = decode(t, w);
	uint32_t x = hw(h, 5, t, n);
	x = mix(x, ctx);
	char s[4096]; int o = 0;
	for (size_t i = 0; i < n; i++) { x = mix(x, i); if (i && x % 3 == 0) { strcpy(s + o, sep); o += strlen(sep); } o += utf8(s + o, t + i, 1); }
	s[o] = 0;
	return cstrOf(s, K_CSTR);
}
void voikkoFreeCstr(char * s) { calls++; release("voikkoFreeCstr", s, K_CSTR); }

struct Ana { char ** keys; wchar_t ** values; };
void ** voikkoAnalyzeWordUcs4(void * p, const wchar_t * w) {
	struct Handle * h = H("voikkoAnalyzeWordUcs4", p);
	if (!h || faulty("voikkoAnalyzeWordUcs4")) return 0;
	static const char * KEY[] = { "CLASS", "STRUCTURE", "BASEFORM", "WEIGHT" };
	uint32_t x = hw(h, 6, w, wcslen(w));
	int n = x % 3;
	if (!n && (x >> 8) % 2) return 0;
	char * a;
	int b = alloc_((n + 1) * sizeof(void *), K_ANA, -1, &a);
	for (int i = 0; i < n; i++) {
		char * q, * k, * v;
		alloc_(sizeof(struct Ana), K_PART, b, &q);
		((void **) a)[i] = q;
		int m = mix(x, i) % 5;
		alloc_((m + 1) * sizeof(char *), K_PART, b, &k);
		alloc_((m + 1) * sizeof(char *), K_PART, b, &v);
		struct Ana * an = (struct Ana *) q;
		an->keys = (char **) k; an->values = (wchar_t **) v;
		for (int j = 0; j < m; j++) {
			wchar_t t[512];
			an->keys[j] = cstrPart(KEY[j], b);
			if (mix(x, i * 8 + j) % 6) swprintf(t, 512, L"%.200ls=%d.%d", w, i, j);
			else t[0] = 0;
			wstr(t, b, an->values + j);
		}
		an->keys[m] = 0; an->values[m] = 0;
	}
	((void **) a)[n] = 0;
	return (void **) a;
}
static struct Ana * A_(const char * f, void * p) {
	calls++;
	int b = find(p);
	if (b < 0 || B[b].kind != K_PART || B[b].freed || B[b].owner < 0 || B[B[b].owner].kind != K_ANA) { bad(f, "called with something that is not a live analysis"); return 0; }
	return (struct Ana *) B[b].p;
}
char ** voikko_mor_analysis_keys(void * p) { static char * none[1]; struct Ana * a = A_("voikko_mor_analysis_keys", p); return a ? a->keys : none; }
const wchar_t * voikko_mor_analysis_value_ucs4(void * p, const char * k) {
	struct Ana * a = A_("voikko_mor_analysis_value_ucs4", p);
	if (a) for (int i = 0; a->keys[i]; i++) if (!strcmp(a->keys[i], k)) return a->values[i];
	return 0;
}
void voikko_free_mor_analysis(void ** a) { calls++; release("voikko_free_mor_analysis", a, K_ANA); }

static int cls(wchar_t c) { return c == L' ' || c == L'\n' || c == L'\t' ? 3 : c == L'.' || c == L',' || c == L'-' ? 2 : c > 0x2000 ? 4 : 1; }
int voikkoNextTokenUcs4(void * p, const wchar_t * t, size_t n, size_t * len) {
	struct Handle * h = H("voikkoNextTokenUcs4", p);
	if (!h) { *len = n; return 0; }
	if (wcslen(t) != n) bad("voikkoNextTokenUcs4", "called with a wrong length");
	if (!n || faulty("voikkoNextTokenUcs4")) { *len = 0; return 0; }
	int c = cls(t[0]);
	size_t i = 1;
	if (c == 1 || c == 3) while (i < n && cls(t[i]) == c) i++;
	*len = i;
	return c;
}
int voikkoNextSentenceStartUcs4(void * p, const wchar_t * t, size_t n, size_t * len) {
	struct Handle * h = H("voikkoNextSentenceStartUcs4", p);
	if (!h) { *len = n; return 0; }
	if (wcslen(t) != n) bad("voikkoNextSentenceStartUcs4", "called with a wrong length");
	size_t i = 0;
	while (i < n && t[i] != L'.') i++;
	while (i < n && (t[i] == L'.' || t[i] == L' ')) i++;
	if (i >= n || faulty("voikkoNextSentenceStartUcs4")) { *len = n; return 0; }
	*len = i;
	return 1 + hw(h, 7, t, n) % 3;
}
char ** voikkoGetAttributeValues(void * p, const char * name) {
	struct Handle * h = H("voikkoGetAttributeValues", p);
	if (!h || faulty("voikkoGetAttributeValues")) return 0;
	if (!name || (strcmp(name, "CLASS") && strcmp(name, "NUMBER"))) return 0;
	int n = state(h) % 4;
	char * a;
	int b = alloc_((n + 1) * sizeof(char *), K_ARR, -1, &a);
	for (int i = 0; i < n; i++) { char s[100]; snprintf(s, sizeof s, "%s_\xc3\xa4%d", name, i); ((char **) a)[i] = cstrPart(s, b); }
	((char **) a)[n] = 0;
	return (char **) a;
}
void voikkoFreeCstrArray(char ** a) { calls++; release("voikkoFreeCstrArray", a, K_ARR); }
static char ** langs(const char * what, const char * path) {
	calls++;
	int n = (path ? strlen(path) : 0) % 4;
	char * a;
	int b = alloc_((n + 1) * sizeof(char *), K_ARR, -1, &a);
	for (int i = 0; i < n; i++) { char s[100]; snprintf(s, sizeof s, "%s%d", what, i); ((char **) a)[i] = cstrPart(s, b); }
	((char **) a)[n] = 0;
	return (char **) a;
}
char ** voikkoListSupportedSpellingLanguages(const char * p) { return langs("s", p); }
char ** voikkoListSupportedHyphenationLanguages(const char * p) { return langs("h", p); }
char ** voikkoListSupportedGrammarCheckingLanguages(const char * p) { return langs("g", p); }
void ** voikko_list_dicts(const char * path) {
	calls++;
	int n = (path ? strlen(path) : 0) % 4;
	char * a;
	int b = alloc_((n + 1) * sizeof(void *), K_DICTS, -1, &a);
	for (int i = 0; i < n; i++) { char s[100]; snprintf(s, sizeof s, "l%d", i); ((void **) a)[i] = cstrPart(s, b); }
	((void **) a)[n] = 0;
	return (void **) a;
}
void voikko_free_dicts(void ** a) { calls++; release("voikko_free_dicts", a, K_DICTS); }
static const char * dict(const char * f, void * p, const char * what) {
	calls++;
	int b = find(p);
	if (b < 0 || B[b].kind != K_PART || B[b].freed || B[B[b].owner].kind != K_DICTS) { bad(f, "called with something that is not a live dictionary entry"); return "?"; }
	char s[100];
	snprintf(s, sizeof s, "%s%s", what, B[b].p);
	return cstrPart(s, B[b].owner);
}
const char * voikko_dict_language(void * d) { return dict("voikko_dict_language", d, "lang-"); }
const char * voikko_dict_script(void * d) { return dict("voikko_dict_script", d, "scr-"); }
const char * voikko_dict_variant(void * d) { return dict("voikko_dict_variant", d, "var-"); }
const char * voikko_dict_description(void * d) { return dict("voikko_dict_description", d, "\xc3\xa4-"); }
const char * voikkoGetVersion(void) { return "4.3-stub"; }
