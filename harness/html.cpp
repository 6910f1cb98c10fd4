// C01/C02: HTML tokenizer.  Document = one of several concrete contexts around N
// arbitrary bytes; the event stream is compared with the document itself.
#include "mp.h"
#include "html_parser.hpp"
#include <string.h>
#include <stdlib.h>
#include <string>
namespace mp = metaproxy_1;
#ifndef N
#define N 5
#endif
static const char *doc, *docend;
static int sp(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '\f'; }
static int al(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int delim(char c) { return sp(c) || c == '/' || c == '>' || c == '<' || c == '=' || !c; }
static int is_script(const char *t, int n) {
    static const char s[] = "script";
    if (n != 6) return 0;
    for (int i = 0; i < 6; i++) if ((t[i] | 32) != s[i]) return 0;
    return 1;
}
// p at "</": does a closing script tag (optionally white space, then '>') stand here?
static int script_close(const char *p) {
    if (!(p[0] == '<' && p[1] == '/')) return 0;
    for (int i = 0; i < 6; i++) { if ((p[2 + i] | 32) != "script"[i]) return 0; }
    p += 8;
    while (sp(*p)) p++;
    return *p == '>';
}
struct Ev : public mp::HTMLParserEvent {
    const char *pos; bool inTag; const char *curTag; int curLen; bool script, pendScript; int n; bool decl, comment;
    Ev() : pos(doc), inTag(false), curTag(0), curLen(0), script(false), pendScript(false), n(0), decl(false), comment(false) {}
    void piece(const char *p, int len) {
        n++;
        if (PROP == 1) { mp_assert(p != 0 && p >= pos && len >= 0 && p + len <= docend, "piece lies in the document, after the previous piece"); }
        if (!(p && p >= pos && len >= 0 && p + len <= docend)) mp_end();
    }
    const char *skipws(const char *p) { while (sp(*p)) p++; return p; }
    void leaveTag() { if (inTag) { inTag = false; if (pendScript) { script = true; pendScript = false; } } }
    void text(const char *v, int len) {
        piece(v, len);
        if (PROP == 1) {
            mp_assert(len > 0, "text is not empty");
            const char *q = inTag ? skipws(pos) : pos;
            mp_assert(v == pos || v == q, "text follows the previous piece without loss");
        } else {
            if (!inTag)
                for (int i = 0; i < len; i++) if (v[i] == '<') {
                    char c = v[i + 1];
                    if (script) mp_assert(!script_close(v + i), "the end of a script is not swallowed as text");
                    else {
                        mp_assert(!al(c), "a tag is not swallowed as text");
                        mp_assert(!(c == '/' && al(v[i + 2])), "a close tag is not swallowed as text");
                        mp_assert(c != '!' && c != '?', "a declaration or processing instruction is not swallowed as text");
                    }
                }
            if (inTag && decl) mp_assert(0, "nothing inside a declaration is text");
        }
        mp_cover(inTag ? "text inside a tag" : script ? "script text" : "text");
        pos = v + len;
    }
    void openTagStart(const char *t, int len) {
        piece(t, len);
        leaveTag();
        bool wasScript = script;
        if (PROP == 1) {
            mp_assert(len > 0, "tag is not empty");
            const char *q = skipws(pos);
            mp_assert((t == pos + 1 && *pos == '<') || (t == q + 1 && *q == '<'), "tag follows the previous piece without loss");
        } else {
            mp_assert(!wasScript, "nothing in a script is a tag");
            mp_assert(t > doc && t[-1] == '<', "tag is preceded by <");
            if (t[0] == '!' && t[1] == '-' && t[2] == '-') {
                bool end = t + len == docend;
                // up to the first "-->"
                for (int i = 3; i + 2 < len; i++) mp_assert(!(t[i] == '-' && t[i + 1] == '-' && t[i + 2] == '>'), "a comment ends at the first -->");
                mp_assert(end || (len >= 5 && t[len] == '>' && t[len - 1] == '-' && t[len - 2] == '-'), "a comment extends to its -->");
                mp_cover(end ? "open-ended comment" : "comment");
            } else if (t[0] == '!' || t[0] == '?') {
                for (int i = 0; i < len; i++) mp_assert(t[i] != '>', "a declaration ends at >");
                mp_assert(t[len] == '>' || !t[len], "a declaration extends to >");
                mp_cover("declaration");
            } else {
                mp_assert(al(t[0]), "tag name starts with a letter");
                for (int i = 0; i < len; i++) mp_assert(!delim(t[i]), "tag name has no delimiter");
                mp_assert(delim(t[len]), "tag name is complete");
                mp_cover("tag");
            }
        }
        decl = t[0] == '!' || t[0] == '?';
        inTag = true; curTag = t; curLen = len; pendScript = is_script(t, len); pos = t + len;
    }
    void closeTag(const char *t, int len) {
        piece(t, len);
        leaveTag();
        if (PROP == 1) {
            const char *q = skipws(pos);
            mp_assert((t == pos + 2 && pos[0] == '<' && pos[1] == '/') || (t == q + 2 && q[0] == '<' && q[1] == '/'), "close tag follows the previous piece without loss");
        } else {
            mp_assert(al(t[0]), "close tag name starts with a letter");
            for (int i = 0; i < len; i++) mp_assert(!delim(t[i]), "close tag name has no delimiter");
            mp_assert(delim(t[len]), "close tag name is complete");
            if (script) { mp_assert(t - 2 >= doc && script_close(t - 2), "only </script> ends a script"); mp_cover("script end"); }
            mp_cover("close tag");
        }
        script = false; decl = false;
        inTag = true; curTag = t; curLen = len; pendScript = false; pos = t + len;
    }
    void attribute(const char *t, int tlen, const char *a, int alen, const char *v, int vlen, const char *s) {
        piece(a, alen);
        if (PROP == 1) mp_assert(inTag && a == skipws(pos), "attribute follows the previous piece without loss");
        else {
            mp_assert(inTag && !decl && t == curTag && tlen == curLen, "attribute belongs to the current tag");
            mp_assert(alen > 0, "attribute name is not empty");
            for (int i = 0; i < alen; i++) mp_assert(!delim(a[i]), "attribute name has no delimiter");
            mp_assert(delim(a[alen]), "attribute name is complete");
        }
        const char *q = skipws(a + alen);
        if (!v) {
            if (PROP == 2) { mp_assert(*q != '=', "attribute with = has a value"); mp_assert(s && !*s, "attribute without value has no quote"); mp_cover("attribute without value"); }
            pos = a + alen; // white space up to the next piece is skipped there
            return;
        }
        piece(v, vlen);
        if (*q != '=') { mp_assert(0, "attribute value follows ="); mp_end(); }
        q = skipws(q + 1);
        if (*q == '"' || *q == '\'') {
            char c = *q;
            if (PROP == 2) {
                mp_assert(s && s[0] == c && !s[1], "quote character reported as written");
                for (int i = 0; i < vlen; i++) mp_assert(v[i] != c, "quoted value ends at its quote");
                mp_assert(v[vlen] == c || !v[vlen], "quoted value is complete");
                mp_cover("quoted value");
            } else mp_assert(v == q + 1, "quoted value follows its quote");
            pos = v + vlen + (v[vlen] == c ? 1 : 0);
        } else {
            if (PROP == 2) {
                mp_assert(s && !*s, "unquoted value has no quote");
                for (int i = 0; i < vlen; i++) mp_assert(!sp(v[i]) && v[i] != '>', "unquoted value ends at space or >");
                mp_assert(sp(v[vlen]) || v[vlen] == '>' || !v[vlen], "unquoted value is complete");
                mp_cover("unquoted value");
            } else mp_assert(v == q, "unquoted value follows =");
            pos = v + vlen;
        }
    }
    void anyTagEnd(const char *t, int tlen, int close) {
        if (PROP == 2) mp_assert(inTag && t == curTag && tlen == curLen, "tag end belongs to the current tag");
        const char *q = skipws(pos);
        if (close) { if (*q != '/') { mp_assert(0, "self-closing tag has a slash"); mp_end(); } q++; }
        if (*q != '>') { mp_assert(0, "tag end stands at >"); mp_end(); }
        mp_cover(close ? "self-closed" : "tag end");
        pos = q + 1;
        leaveTag();
    }
};
void mp_main(void) {
    static const char *ctx[][2] = {
        {"", ""}, {"<a ", ""}, {"<a b", ""}, {"<a b=", ""}, {"<a b='", ""}, {"<a b=\"", "\">"}, {"<!--", ""}, {"<!-", "-->x"}, {"<script>", "</script>"},
        {"<script>x</", ""}, {"<scrip", "x</script>"}, {"<", "></a>"}, {"</", ""}, {"<a/", "/>"}, {"<scripT><a b=c></scrip", ""}, {"<?x ", "?>"}, {"<br", "/>t"}, {"a<b>c</b>", ""}, {"<!D", ">"}
    };
    static const int nctx = sizeof ctx / sizeof *ctx;
    int k = mp_pick(0, nctx - 1, "context");
    int n = k == 0 ? N : N - 1;
    size_t pl = strlen(ctx[k][0]), sl = strlen(ctx[k][1]);
    char *b = (char *)malloc(pl + n + sl + 1);
    memcpy(b, ctx[k][0], pl);
    mp_sym(b + pl, n, "doc");
    memcpy(b + pl + n, ctx[k][1], sl + 1);
    doc = b; docend = b + strlen(b);
    {
        mp::HTMLParser parser;
        Ev ev;
        parser.parse(ev, b);
        if (PROP == 1) {
            const char *q = ev.inTag ? ev.skipws(ev.pos) : ev.pos;
            mp_assert(ev.pos == docend || q == docend, "the document is reported to its end");
        }
        mp_cover("done");
    }
    free(b);
}
