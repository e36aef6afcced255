// C13: splitting a source text into tokens
#include "sx.h"
#include <string>
#include <vector>
#include <cstring>
#include <Core/Common/Exceptions.h>
#include <Core/Common/Token.h>
#include <Core/Designtime/Exceptions.h>
#include <Core/Designtime/Parser/Tokenizer.h>

using namespace Slang;
typedef Token::Type T;

// ------------------------------------------------------------ independent description of the language's tokens
struct Lexeme {
  T::E type;
  std::string content;  // as it is found in the token
  int line, lastLine;   // 1 based line of the first and of the last character
  int column, lastColumn;
  int from, to;         // offsets in the text, to = one past the end
  bool word, literal;   // made of word characters / a complete literal
};

static bool isSpace(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
static bool isSpecial(char c) {
  switch (c) {
    case '#': case '.': case ',': case ';': case ':': case '=': case '(': case ')': case '[': case ']': case '{': case '}': case '!': case '?': case '<':
    case '>': case '+': case '-': case '*': case '/': case '%': case '&': case '|': case '~': case '\'': case '"': return true;
  }
  return isSpace(c);
}
static bool isDigit(char c) { return c >= '0' && c <= '9'; }

struct Word { const char *text; T::E type; };
static const Word WORDS[] = {
  {"assert", T::KEYWORD}, {"break", T::KEYWORD}, {"case", T::KEYWORD}, {"cast", T::KEYWORD}, {"catch", T::KEYWORD}, {"continue", T::KEYWORD}, {"copy", T::KEYWORD},
  {"default", T::KEYWORD}, {"delete", T::KEYWORD}, {"else", T::KEYWORD}, {"exit", T::KEYWORD}, {"finally", T::KEYWORD}, {"for", T::KEYWORD}, {"foreach", T::KEYWORD},
  {"if", T::KEYWORD}, {"new", T::KEYWORD}, {"print", T::KEYWORD}, {"return", T::KEYWORD}, {"streval", T::KEYWORD}, {"switch", T::KEYWORD}, {"throw", T::KEYWORD},
  {"try", T::KEYWORD}, {"typeid", T::KEYWORD}, {"var", T::KEYWORD}, {"while", T::KEYWORD},
  {"ref", T::ACCESS_MODE}, {"val", T::ACCESS_MODE}, {"true", T::CONST_BOOLEAN}, {"false", T::CONST_BOOLEAN}, {"is", T::OPERATOR_IS},
  {"abstract", T::MEMORY_LAYOUT}, {"final", T::MEMORY_LAYOUT}, {"override", T::MEMORY_LAYOUT}, {"static", T::MEMORY_LAYOUT}, {"virtual", T::MEMORY_LAYOUT},
  {"const", T::MUTABILITY}, {"modify", T::MUTABILITY}, {"public", T::VISIBILITY}, {"protected", T::VISIBILITY}, {"private", T::VISIBILITY},
  {"recursive", T::MODIFIER}, {"sealed", T::MODIFIER}, {"throws", T::MODIFIER}, {"notimplemented", T::LANGUAGE_FEATURE_STATE},
  {"deprecated", T::LANGUAGE_FEATURE_STATE}, {"stable", T::LANGUAGE_FEATURE_STATE}, {"unstable", T::LANGUAGE_FEATURE_STATE},
  {"enum", T::RESERVED_WORD}, {"extends", T::RESERVED_WORD}, {"implements", T::RESERVED_WORD}, {"import", T::RESERVED_WORD}, {"interface", T::RESERVED_WORD},
  {"namespace", T::RESERVED_WORD}, {"object", T::RESERVED_WORD}, {"operator", T::RESERVED_WORD}, {"replicates", T::RESERVED_WORD},
};
static const unsigned NWORDS = sizeof WORDS / sizeof *WORDS;

static const Word SINGLE[] = {
  {";", T::SEMICOLON}, {":", T::COLON}, {".", T::OPERATOR_SCOPE}, {",", T::COMMA}, {"{", T::BRACKET_CURLY_OPEN}, {"}", T::BRACKET_CURLY_CLOSE},
  {"[", T::BRACKET_OPEN}, {"]", T::BRACKET_CLOSE}, {"(", T::PARENTHESIS_OPEN}, {")", T::PARENTHESIS_CLOSE}, {"=", T::ASSIGN}, {"<", T::COMPARE_LESS},
  {">", T::COMPARE_GREATER}, {"&", T::BITAND}, {"|", T::BITOR}, {"+", T::MATH_ADDITION}, {"/", T::MATH_DIVIDE}, {"%", T::MATH_MODULO}, {"*", T::MATH_MULTIPLY},
  {"-", T::MATH_SUBTRACT}, {"?", T::QUESTION_MARK}, {"!", T::OPERATOR_NOT}, {"~", T::TILDE}, {"'", T::IDENTIFIER},
};
static const unsigned NSINGLE = sizeof SINGLE / sizeof *SINGLE;

static const Word JOINED[] = {
  {"==", T::COMPARE_EQUAL}, {"!=", T::COMPARE_UNEQUAL}, {"<=", T::COMPARE_LESS_EQUAL}, {">=", T::COMPARE_GREATER_EQUAL}, {"+=", T::ASSIGN_ADDITION},
  {"-=", T::ASSIGN_SUBTRACT}, {"*=", T::ASSIGN_MULTIPLY}, {"/=", T::ASSIGN_DIVIDE}, {"%=", T::ASSIGN_MODULO}, {"&=", T::ASSIGN_BITAND}, {"|=", T::ASSIGN_BITOR},
  {"&&", T::AND}, {"||", T::OR}, {"!&", T::NAND}, {"!|", T::NOR}, {"..", T::OPERATOR_RANGE}, {"--", T::OPERATOR_DECREMENT}, {"++", T::OPERATOR_INCREMENT},
  {"<<", T::OPERATOR_SHIFT_LEFT}, {">>", T::OPERATOR_SHIFT_RIGHT}, {"[]", T::ARRAY_SUBSCRIPT}, {"===", T::COMPARE_EQUAL_CONTENT}, {"!==", T::COMPARE_UNEQUAL_CONTENT},
};
static const unsigned NJOINED = sizeof JOINED / sizeof *JOINED;

static T::E wordType(const std::string &w) {
  for (unsigned i = 0; i < NWORDS; ++i) if (w == WORDS[i].text) return WORDS[i].type;
  return T::IDENTIFIER;
}

// splits a text, returns false when it ends inside a literal
static bool scan(const std::string &s, std::vector<Lexeme> &out) {
  int line = 1, column = 1;
  size_t i = 0, n = s.size();
  auto step = [&]() {
    if (s[i] == '\n') { line++; column = 1; } else column++;
    i++;
  };
  while (i < n) {
    char c = s[i];
    if (isSpace(c)) { step(); continue; }
    if (c == '#' || (c == '/' && i + 1 < n && s[i + 1] == '/')) {
      while (i < n && s[i] != '\n') step();
      continue;
    }
    if (c == '/' && i + 1 < n && s[i + 1] == '*') {
      step(); step();
      while (i < n && !(s[i] == '*' && i + 1 < n && s[i + 1] == '/')) step();
      if (i < n) { step(); step(); }
      continue;
    }
    Lexeme l{T::IDENTIFIER, "", line, line, column, column, (int)i, 0, false, false};
    auto take = [&]() { l.lastLine = line; l.lastColumn = column; step(); l.to = (int)i; };
    if (c == '"') {
      take();
      bool closed = false;
      while (i < n && !closed) {
        if (s[i] == '\\') {
          take();
          if (i >= n) return false;
          l.content += s[i];
          take();
        } else if (s[i] == '"') {
          closed = true;
          take();
        } else {
          l.content += s[i];
          take();
        }
      }
      if (!closed) return false;
      l.type = T::CONST_LITERAL;
      l.literal = true;
    } else if (isSpecial(c)) {
      l.content = std::string(1, c);
      for (unsigned k = 0; k < NSINGLE; ++k) if (c == SINGLE[k].text[0]) l.type = SINGLE[k].type;
      take();
    } else {
      l.word = true;
      while (i < n && !isSpecial(s[i])) { l.content += s[i]; take(); }
      size_t d = 0;
      while (d < l.content.size() && isDigit(l.content[d])) d++;
      if (d && d == l.content.size()) l.type = T::CONST_INTEGER;
      else if (d && d + 1 == l.content.size() && (l.content[d] == 'd' || l.content[d] == 'f' || l.content[d] == 'i')) {
        l.type = l.content[d] == 'd' ? T::CONST_DOUBLE : l.content[d] == 'f' ? T::CONST_FLOAT : T::CONST_INTEGER;
        l.content.erase(d);
      } else l.type = wordType(l.content);
    }
    out.push_back(l);
  }
  return true;
}

static bool isOperator(const Lexeme &l) { return !l.word && !l.literal; }

// ------------------------------------------------------------ comparison with the real tokens
struct Tokens { bool rejected; std::vector<Token> list; };
static Tokens tokenize(const std::string &text) {
  Tokens r{false, {}};
  Tokenizer t("text", text);
  try {
    t.process();
  } catch (Designtime::Exceptions::SyntaxError &) {
    r.rejected = true;
    return r;
  }
  for (auto &x : t.tokens()) r.list.push_back(x);
  sx_assert(!r.list.empty() && r.list.back().type() == T::ENDOFFILE, "the list of tokens ends with the end of the text");
  r.list.pop_back();
  for (auto &x : r.list) sx_assert(x.type() != T::ENDOFFILE && x.type() != T::UNKNOWN && x.type() != T::WHITESPACE, "every other token is a part of the text");
  return r;
}

static void checkPosition(const Token &t, const Lexeme &first, const Lexeme &last) {
  int line = t.position().mLine, column = t.position().mColumn;
  sx_assert(line >= first.line && line <= last.lastLine, "a token carries the line it stands on");
  if (line == first.line) sx_assert(column >= first.column, "a token carries its column");
  if (line == last.lastLine) sx_assert(column <= last.lastColumn + 1, "a token carries its column");
}

static void checkText(const std::string &text) {
  sx_observe_str(text.data(), text.size());
  std::vector<Lexeme> ref;
  bool complete = scan(text, ref);
  Tokens got = tokenize(text);
  // numbers directly followed by a dot or a name are judged by the cases on numbers
  for (size_t i = 0; i + 1 < ref.size(); ++i)
    if (ref[i].type == T::CONST_INTEGER && ref[i].word && (ref[i + 1].type == T::IDENTIFIER || (ref[i + 1].type == T::OPERATOR_SCOPE && isOperator(ref[i + 1])))) return;
  // an unclosed literal behind a number as well
  if (!complete && !ref.empty() && ref.back().type == T::CONST_INTEGER) return;
  sx_assert(!got.rejected, "a text is split into tokens");
  sx_reach("split");
  size_t g = 0;
  for (size_t i = 0; i < ref.size();) {
    if (!isOperator(ref[i])) {
      sx_assert(g < got.list.size(), "no token is lost");
      const Token &t = got.list[g++];
      sx_assert(t.content() == ref[i].content, "the content of a token is the text as it is written");
      sx_assert(t.type() == ref[i].type, "words, numbers and literals are recognised");
      checkPosition(t, ref[i], ref[i]);
      ++i;
      continue;
    }
    // a run of special characters
    size_t e = i;
    bool adjacent = true;
    std::string all;
    while (e < ref.size() && isOperator(ref[e])) {
      if (e > i && ref[e].from != ref[e - 1].to) adjacent = false;
      all += ref[e].content;
      ++e;
    }
    T::E joined = T::UNKNOWN;
    if (adjacent) for (unsigned k = 0; k < NJOINED; ++k) if (all == JOINED[k].text) joined = JOINED[k].type;
    std::string seen;
    size_t first = g, at = i;
    while (seen.size() < all.size()) {
      sx_assert(g < got.list.size(), "no token is lost");
      const Token &t = got.list[g++];
      size_t n = t.content().size();
      sx_assert(n > 0 && n <= 3 && seen.size() + n <= all.size(), "operators consist of the characters as they are written");
      seen += t.content();
      checkPosition(t, ref[at], ref[at + n - 1]);
      if (n == 1) sx_assert(t.type() == ref[at].type, "special characters are recognised");
      else {
        T::E type = T::UNKNOWN;
        for (unsigned k = 0; k < NJOINED; ++k) if (t.content() == JOINED[k].text) type = JOINED[k].type;
        sx_assert(type == t.type(), "operators are recognised");
      }
      at += n;
    }
    sx_assert(seen == all, "operators consist of the characters as they are written");
    if (joined != T::UNKNOWN) sx_assert(g == first + 1, "the characters of an operator form one token");
    else if (all.size() == 2 && adjacent) sx_assert(g == first + 2, "other characters stay apart");
    i = e;
  }
  if (complete) sx_assert(g == got.list.size(), "no token is invented");
}

static std::string bytes(const char *name, int n) {
  char b[16];
  sx_bytes(b, n, name);
  for (int i = 0; i < n; ++i) sx_assume(b[i] != 0);
  return std::string(b, n);
}

// all special characters and a few others
static std::string specials(const char *name, int n) {
  std::string s = bytes(name, n);
  for (char c : s) sx_assume(isSpecial(c) | (c == '\\') | (c == 'a') | (c == 'f') | (c == '7') | (c == '_') | (c == (char)0xe4));
  return s;
}

// ------------------------------------------------------------ arbitrary texts
SX_CASE(any_text) { checkText(bytes("text", sx_choose("length", 3))); }
SX_CASE(T_any_text) { checkText(bytes("text", 3)); }
SX_CASE(T_special_text) { checkText(specials("text", 3)); }

// arbitrary bytes between other tokens
static void context(int n) {
  static const char *contexts[][2] = {{"ab", "cd"}, {"ab ", " cd\n"}, {"\"a", "b\"c;"}, {"/*", "*/x"}, {"//", "\nx;"}, {"#", "\nx;"}, {"/", "/ x\n"}, {"a/* ", "*/ b"},
                                      {"+", "="}, {"!", "="}, {"=", "="}, {"(", ")"}, {"a\n\n", "\nb\n"}, {"\"", "\""}, {"*/", "/*"}, {"ret", "rn;"}, {"a;}", ""}, {"12", ";"}};
  unsigned c = sx_choose("context", 18);
  checkText(std::string(contexts[c][0]) + bytes("text", n) + contexts[c][1]);
}
SX_CASE(context) { context(1 + sx_choose("length", 2)); }

// ------------------------------------------------------------ words
static std::string word(const char *name, int n) {
  std::string w = bytes(name, n);
  for (int i = 0; i < n; ++i) sx_assume((w[i] >= 'a' && w[i] <= 'z') || (w[i] >= 'A' && w[i] <= 'Z') || (w[i] >= '0' && w[i] <= '9') || w[i] == '_');
  sx_assume(!isDigit(w[0]));
  return w;
}
static void words(int n) {
  std::string w = word("word", n);
  if (w == "operator") return;  // joined with the following operator
  Tokens got = tokenize(w + "(");
  sx_assert(!got.rejected && got.list.size() == 2, "a word is one token");
  sx_assert(got.list[0].content() == w, "a word is kept as it is written");
  sx_assert(got.list[0].type() == wordType(w), "keywords and names are told apart");
  sx_assert(got.list[1].type() == T::PARENTHESIS_OPEN, "the following token is kept");
}
SX_CASE(words) { words(1 + sx_choose("length", 8)); }
SX_CASE(T_words) { words(9 + sx_choose("length", 3)); }

// known words with one other character
SX_CASE(similar_words) {
  std::string w = WORDS[sx_choose("word", NWORDS)].text;
  char c = (char)sx_u8("character");
  sx_assume((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_');
  size_t at = sx_choose("at", w.size());
  w[at] = c;
  sx_assume(!isDigit(w[0]));
  Tokens got = tokenize(w + "(");
  if (w == "operator") return;  // joined with the following operator
  sx_assert(!got.rejected && got.list.size() == 2, "a word is one token");
  sx_assert(got.list[0].content() == w, "a word is kept as it is written");
  sx_assert(got.list[0].type() == wordType(w), "keywords and names are told apart");
}

SX_CASE(known_words) {
  unsigned k = sx_choose("word", NWORDS);
  std::string w = WORDS[k].text;
  unsigned end = sx_choose("end", 4);
  std::string text = end == 0 ? w + " x" : end == 1 ? w + "\n;" : end == 2 ? w + "/* */" : w + ";";
  Tokens got = tokenize(text);
  sx_assert(!got.rejected && !got.list.empty(), "a word is one token");
  if (w == "operator") return;  // joined with the following operator
  sx_assert(got.list[0].content() == w && got.list[0].type() == WORDS[k].type, "a known word is recognised");
  // with another character in front or behind it is a name
  char c = (char)sx_u8("letter");
  sx_assume((c >= 'A' && c <= 'Z') || c == '_');
  got = tokenize(w + c + ";");
  sx_assert(got.list.size() == 2 && got.list[0].type() == T::IDENTIFIER && got.list[0].content() == w + c, "a longer word is a name");
  got = tokenize(c + w + ";");
  sx_assert(got.list.size() == 2 && got.list[0].type() == T::IDENTIFIER && got.list[0].content() == c + w, "a longer word is a name");
}

// ------------------------------------------------------------ literals
static void literal(int n) {
  std::string inner = bytes("inner", n), content;
  bool open = false;
  for (int i = 0; i < n; ++i) {
    if (open) { content += inner[i]; open = false; }
    else if (inner[i] == '\\') open = true;
    else { sx_assume(inner[i] != '"'); content += inner[i]; }
  }
  sx_assume(!open);
  Tokens got = tokenize("a=\"" + inner + "\";\n b");
  int lines = 1;
  for (char c : inner) lines += c == '\n';
  sx_assert(!got.rejected && got.list.size() == 5, "a literal is one token");
  sx_assert(got.list[2].type() == T::CONST_LITERAL && got.list[2].content() == content, "a literal has the written content");
  sx_assert(got.list[3].type() == T::SEMICOLON && got.list[4].content() == "b", "tokens behind a literal are kept");
  sx_assert(got.list[3].position().mLine == lines && got.list[4].position().mLine == lines + 1, "lines behind a literal are counted");
}
SX_CASE(literals) { literal(sx_choose("length", 5)); }
SX_CASE(T_literals) { literal(6); }

// ------------------------------------------------------------ comments and white space
static void comment(int n) {
  std::string text = bytes("comment", n);
  unsigned kind = sx_choose("kind", 4);
  std::string c;
  int lines = 0;
  for (char x : text) lines += x == '\n';
  if (kind == 0) {
    for (int i = 0; i + 1 < n; ++i) sx_assume(!(text[i] == '*' && text[i + 1] == '/'));
    c = "/*" + text + "*/";
    if (n) sx_assume(true);
  } else if (kind == 1 || kind == 2) {
    sx_assume(lines == 0);
    c = (kind == 1 ? "//" : "#") + text + "\n";
    lines = 1;
  } else {
    for (int i = 0; i < n; ++i) sx_assume(isSpace(text[i]));
    c = text;
  }
  unsigned where = sx_choose("where", 4);
  static const char *pre[] = {"", "ab ", "a+", "f("}, *post[] = {"x;", "=y", "*b", ")\n"};
  Tokens plain = tokenize(std::string(pre[where]) + " " + post[where]);
  Tokens got = tokenize(std::string(pre[where]) + c + post[where]);
  sx_assert(!got.rejected && plain.list.size() == got.list.size(), "a comment does not change the tokens");
  for (size_t i = 0; i < plain.list.size(); ++i) {
    sx_assert(plain.list[i].type() == got.list[i].type() && plain.list[i].content() == got.list[i].content(), "a comment does not change the tokens");
  }
  sx_assert((int)got.list.back().position().mLine == 1 + lines, "lines of a comment are counted");
}
SX_CASE(comments) { comment(sx_choose("length", 4)); }
SX_CASE(T_comments) { comment(4 + sx_choose("length", 2)); }

// a comment between any two tokens
static const char *LEXEMES[] = {"a", "if", "ref", "7", "\"t\"", "3.5f", "true", "is", ";", "(", ")", "{", "}", "[", "]", "[]", "+", "-", "*", "/", "%", "=", "==", "!=", "<", ">",
                                "&&", "||", "!", "++", "..", "?", ":", ",", ".", "object", "_x1", "2d", "<<", "+=", "'", "~"};
static const unsigned NLEX = sizeof LEXEMES / sizeof *LEXEMES;
static void sequence(int n) {
  static const char *gaps[] = {"", " ", "\n", "/**/", "/* \n */", "//\n", "# \"\n", "\t\r\n", "/*\"*/", "/* // */", "/***/"};
  std::string all;
  for (int i = 0; i < n; ++i) {
    if (i) all += gaps[sx_choose(("gap" + std::to_string(i)).c_str(), 11)];
    all += LEXEMES[sx_choose(("token" + std::to_string(i)).c_str(), NLEX)];
  }
  checkText(all);
}
SX_CASE(sequences) { sequence(2); }

// ------------------------------------------------------------ numbers
SX_CASE(numbers) {
  unsigned whole = 1 + sx_choose("whole", 3), part = sx_choose("part", 3), suffix = sx_choose("suffix", 4), dot = sx_choose("dot", 2);
  char a[4], b[4];
  sx_bytes(a, whole, "digits");
  sx_bytes(b, part, "fraction");
  for (unsigned i = 0; i < whole; ++i) sx_assume(isDigit(a[i]));
  for (unsigned i = 0; i < part; ++i) sx_assume(isDigit(b[i]));
  if (!dot && part) return;
  static const char *suffixes[] = {"", "d", "f", "i"};
  std::string plain = std::string(a, whole) + (dot ? "." : "") + std::string(b, part);
  Tokens got = tokenize("x=" + plain + suffixes[suffix] + ";");
  if (dot && (suffix == 3 || (suffix == 0 && part))) {
    sx_assert(got.rejected, "a number with a fraction needs a type");
    sx_reach("rejected");
    return;
  }
  if (dot && suffix == 0) return;  // "1." is a number followed by a dot
  sx_assert(!got.rejected && got.list.size() == 4, "a number is one token");
  sx_assert(got.list[2].content() == plain, "a number has the written digits");
  sx_assert(got.list[2].type() == (suffix == 1 ? T::CONST_DOUBLE : suffix == 2 ? T::CONST_FLOAT : T::CONST_INTEGER), "a number has the written type");
  sx_assert(got.list[3].type() == T::SEMICOLON, "the token behind a number is kept");
  sx_reach("number");
}

// ------------------------------------------------------------ names of operators
SX_CASE(operator_names) {
  static const char *ops[] = {"+", "-", "*", "/", "%", "=", "==", "!=", "<", "<=", ">", ">=", "+=", "-=", "*=", "/=", "%=", "&", "|", "&&", "||", "!", "++", "--", "<<", ">>", "~", "[]"};
  unsigned k = sx_choose("operator", 28), gap = sx_choose("gap", 2);
  std::string op = ops[k];
  Tokens got = tokenize(std::string("void operator") + (gap ? " " : "") + op + "(int a)");
  sx_assert(!got.rejected && got.list.size() == 6, "operator and its sign form one name");
  sx_assert(got.list[1].type() == T::IDENTIFIER && got.list[1].content() == "operator" + op, "operator and its sign form one name");
}
