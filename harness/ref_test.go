package htmltomarkdown_test

import (
	"regexp"
	"strings"
	"unicode"
	"unicode/utf8"
)

// A reference for what counts as the start of a construct, written over
// plain text (no markers), independently of the converter.

const escChars = "\\*_-+.>|$#=[]()!~`\"'"

func lineBefore(s string, i int) string {
	return s[strings.LastIndexByte(s[:i], '\n')+1 : i]
}
func lineAfter(s string, i int) string {
	if k := strings.IndexByte(s[i:], '\n'); k >= 0 {
		return s[i : i+k]
	}
	return s[i:]
}
func blank(s string) bool { return strings.Trim(s, " ") == "" }

func byteSpace(c byte) bool {
	return c == ' ' || c >= 9 && c <= 13 || c == 0x85 || c == 0xA0
}

func spaceOrEnd(s string, i int) bool {
	return i >= len(s) || s[i] == 0 || byteSpace(s[i])
}

var reFence = regexp.MustCompile("^[`~]{3,}")
var reAtx = regexp.MustCompile(`^#{1,6}([ \t\n\r]|$)`)

// refBlock: length of the construct that starts at s[i], or 0
func refBlock(name, s string, i int) int {
	c := s[i]
	start := blank(lineBefore(s, i))
	one := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	switch name {
	case "IsFencedCode":
		if start {
			return len(reFence.FindString(s[i:]))
		}
	case "IsDivider":
		if start && strings.IndexByte("-_*", c) >= 0 {
			l := lineAfter(s, i)
			if strings.Trim(l, " "+string(c)) == "" && strings.Count(l, string(c)) >= 3 {
				return len(l)
			}
		}
	case "IsAtxHeader":
		if m := reAtx.FindString(s[i:]); start && m != "" {
			return len(strings.TrimRight(m, " \t\n\r"))
		}
	case "IsSetextHeader":
		if c == '=' || c == '-' {
			before := strings.TrimRight(s[:i], " ")
			if strings.HasSuffix(before, "\n") {
				before = strings.TrimRight(before[:len(before)-1], " ")
				return one(before != "" && !strings.HasSuffix(before, "\n"))
			}
		}
	case "IsUnorderedList":
		return one(start && strings.IndexByte("-*+", c) >= 0 && spaceOrEnd(s, i+1))
	case "IsOrderedList":
		if c == '.' || c == ')' {
			b := lineBefore(s, i)
			if b == "" {
				return 0
			}
			p, _ := utf8.DecodeLastRuneInString(b)
			return one(unicode.IsDigit(p) && p < 128 && strings.Trim(b, " 0123456789") == "" && spaceOrEnd(s, i+1))
		}
	case "IsBlockQuote":
		return one(c == '>' && start)
	}
	return 0
}

func refInline(name, s string, i int) int {
	c := s[i]
	one := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	switch name {
	case "IsItalicOrBold":
		if c == '*' || c == '_' {
			if i+1 >= len(s) {
				return 0
			}
			n, _ := utf8.DecodeRuneInString(s[i+1:])
			return one(n != 0 && !unicode.IsSpace(n))
		}
	case "IsImageOrLink":
		if c == '!' {
			return 0 // the '[' that follows is the one that is looked at
		}
		if c == '[' {
			return one(strings.Contains(lineAfter(s, i+1), "]"))
		}
	case "IsInlineCode":
		return one(c == '`')
	case "IsBackslash":
		return one(c == '\\')
	}
	return 0
}

var blockNames = []string{"IsBlockQuote", "IsAtxHeader", "IsSetextHeader", "IsDivider", "IsOrderedList", "IsUnorderedList", "IsFencedCode"}
var inlineNames = []string{"IsItalicOrBold", "IsImageOrLink", "IsInlineCode", "IsBackslash"}
var allNames = []string{"IsItalicOrBold", "IsBlockQuote", "IsAtxHeader", "IsSetextHeader", "IsDivider", "IsOrderedList", "IsUnorderedList", "IsImageOrLink", "IsFencedCode", "IsInlineCode", "IsBackslash"}

// refEscape writes literal text with a backslash before every character
// that would otherwise start a construct.
func refEscape(s string) string {
	var sb strings.Builder
	skip := 0
	for i := 0; i < len(s); i++ {
		if skip > 0 {
			skip--
		} else if strings.IndexByte(escChars, s[i]) >= 0 {
			for _, n := range allNames {
				k := refBlock(n, s, i)
				if k == 0 {
					k = refInline(n, s, i)
				}
				if k > 0 {
					sb.WriteByte('\\')
					skip = k - 1
					break
				}
			}
		}
		sb.WriteByte(s[i])
	}
	return sb.String()
}
