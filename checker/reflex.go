package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Independent reference tokenizer of the language (Go-like rules, README).

type TK int

const (
	tEOF TK = iota
	tNewline
	tIdent
	tInt
	tString
	tBool
	tNil
	tKeyword // value is the keyword / builtin / type
	tOp      // punctuation, operators
	tTop     // any token; V is its number
)

type Tok struct {
	Kind TK
	V    string // identifier spelling, operator, unquoted string content, digits
	Row  int
	Col  int
	Off  int
	End  int
	Raw  string
}

var repoTokenName = map[string]string{
	"(": "OPENING_ROUND_BRACKET", ")": "CLOSING_ROUND_BRACKET", "[": "OPENING_SQUARE_BRACKET", "]": "CLOSING_SQUARE_BRACKET",
	"{": "OPENING_CURLY_BRACKET", "}": "CLOSING_CURLY_BRACKET",
	"==": "COMPARE_OPERATOR", "!=": "COMPARE_OPERATOR", "<=": "COMPARE_OPERATOR", ">=": "COMPARE_OPERATOR", "<": "COMPARE_OPERATOR", ">": "COMPARE_OPERATOR",
	"&&": "LOGICAL_OPERATOR", "||": "LOGICAL_OPERATOR",
	"+=": "COMPOUND_ASSIGN_OPERATOR", "-=": "COMPOUND_ASSIGN_OPERATOR", "*=": "COMPOUND_ASSIGN_OPERATOR", "/=": "COMPOUND_ASSIGN_OPERATOR", "%=": "COMPOUND_ASSIGN_OPERATOR",
	"=": "ASSIGN_OPERATOR", ":=": "SHORT_INIT_OPERATOR", "++": "INCREMENT_OPERATOR", "--": "DECREMENT_OPERATOR", "!": "UNARY_OPERATOR",
	"+": "BINARY_OPERATOR", "-": "BINARY_OPERATOR", "*": "BINARY_OPERATOR", "/": "BINARY_OPERATOR", "%": "BINARY_OPERATOR",
	",": "COMMA", ":": "COLON", ";": "SEMICOLON", ".": "DOT", "@": "AT", "|": "PIPE",
	"import": "IMPORT", "var": "VAR_DEFINITION", "func": "FUNCTION_DEFINITION", "return": "RETURN", "if": "IF", "else": "ELSE", "switch": "SWITCH", "case": "CASE", "default": "DEFAULT", "for": "FOR", "range": "RANGE", "break": "BREAK", "continue": "CONTINUE",
	"len": "LEN", "print": "PRINT", "input": "INPUT", "copy": "COPY", "itoa": "ITOA", "exists": "EXISTS", "read": "READ", "write": "WRITE", "panic": "PANIC",
	"bool": "DATA_TYPE", "int": "DATA_TYPE", "string": "DATA_TYPE", "error": "DATA_TYPE",
}

var refOps = []string{"==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=", ":=", "++", "--",
	"(", ")", "[", "]", "{", "}", "<", ">", "=", "!", "+", "-", "*", "/", "%", ",", ":", ";", ".", "@", "|"}

func isKeyword(s string) bool {
	if s == "" || !(s[0] >= 'a' && s[0] <= 'z') {
		return false
	}
	_, ok := repoTokenName[s]
	return ok
}

func identStart(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func isDigit(c byte) bool    { return c >= '0' && c <= '9' }

// operandEnd: the token before ends an operand, so an operator has to follow.
func operandEnd(out []Tok) bool {
	if len(out) == 0 {
		return false
	}
	switch t := out[len(out)-1]; t.Kind {
	case tIdent, tInt, tString, tBool, tNil:
		return true
	case tOp:
		return t.V == ")" || t.V == "]" || t.V == "++" || t.V == "--"
	}
	return false
}

// refLex tokenizes; '#name' denotes an opaque integer literal in schemas (schema=true).
func refLex(src string, schema bool) ([]Tok, error) {
	return refLexN(src, schema, new(string))
}

// refLexN also notes in neutral why the text is outside the fixed token grammar (its treatment is not judged).
func refLexN(src string, schema bool, neutral *string) ([]Tok, error) {
	src = strings.ReplaceAll(src, "\r\n", "\n")
	var out []Tok
	row, col := 1, 1
	i := 0
	adv := func(n int) {
		for k := 0; k < n; k++ {
			if src[i] == '\n' {
				row++
				col = 1
			} else {
				col++
			}
			i++
		}
	}
	for i < len(src) {
		c := src[i]
		r0, c0, o0 := row, col, i
		emit := func(k TK, v string, n int) {
			adv(n)
			out = append(out, Tok{k, v, r0, c0, o0, i, src[o0:i]})
		}
		switch {
		case c == ' ' || c == '\t':
			adv(1)
		case c == '\n':
			emit(tNewline, "\n", 1)
		case strings.HasPrefix(src[i:], "//"):
			n := strings.IndexByte(src[i:], '\n')
			if n < 0 {
				n = len(src) - i
			}
			adv(n)
		case strings.HasPrefix(src[i:], "/*") && strings.Contains(src[i+2:], "*/"):
			adv(strings.Index(src[i+2:], "*/") + 4)
		case strings.HasPrefix(src[i:], "/*"):
			*neutral = "unterminated block comment"
			return out, fmt.Errorf("unterminated comment")
		case c == '`':
			n := strings.IndexByte(src[i+1:], '`')
			if n < 0 {
				return out, fmt.Errorf("unterminated raw string")
			}
			emit(tString, src[i+1:i+1+n], n+2)
		case c == '"':
			var b strings.Builder
			k := i + 1
			done := false
			for k < len(src) {
				if src[k] == '"' {
					done = true
					break
				}
				if src[k] == '\n' || src[k] == '\r' {
					*neutral = "line break in an interpreted string"
				}
				if src[k] == '\\' {
					rr, mb, tail, err := strconv.UnquoteChar(src[k:], '"')
					if err != nil {
						if k+1 < len(src) && src[k+1] == '\n' {
							*neutral = "line break in an interpreted string"
						}
						return out, fmt.Errorf("bad escape")
					}
					if rr < utf8.RuneSelf || !mb {
						b.WriteByte(byte(rr))
					} else {
						b.WriteRune(rr)
					}
					k = len(src) - len(tail)
					continue
				}
				b.WriteByte(src[k])
				k++
			}
			if !done {
				return out, fmt.Errorf("unterminated string")
			}
			emit(tString, b.String(), k+1-i)
		case identStart(c):
			n := 1
			for i+n < len(src) && (identStart(src[i+n]) || isDigit(src[i+n])) {
				n++
			}
			w := src[i : i+n]
			switch {
			case w == "true" || w == "false":
				emit(tBool, w, n)
			case w == "nil":
				emit(tNil, w, n)
			case isKeyword(w):
				emit(tKeyword, w, n)
			default:
				emit(tIdent, w, n)
			}
		case isDigit(c) || c == '-' && i+1 < len(src) && isDigit(src[i+1]) && !operandEnd(out):
			// a '-' in front of digits where an operand starts belongs to the literal
			n := 1
			for i+n < len(src) && isDigit(src[i+n]) {
				n++
			}
			if i+n+1 < len(src) && src[i+n] == '.' && isDigit(src[i+n+1]) {
				*neutral = "fraction"
			}
			emit(tInt, src[i:i+n], n)
		case schema && c == '#':
			n := 1
			for i+n < len(src) && (identStart(src[i+n]) || isDigit(src[i+n])) {
				n++
			}
			emit(tInt, src[i:i+n], n)
		default:
			found := false
			for _, op := range refOps {
				if strings.HasPrefix(src[i:], op) {
					emit(tOp, op, len(op))
					found = true
					break
				}
			}
			if !found {
				if c == '\r' {
					*neutral = "carriage return"
				}
				return out, fmt.Errorf("unknown character %q", c)
			}
		}
	}
	out = append(out, Tok{tEOF, "", row, col, i, i, ""})
	return out, nil
}
