package internal/escape

// byte 7 is the escaping marker that precedes every character of the text
// that could start a markdown construct

// only spaces and markers between the start of the line and position i
spec func lead(s bytes, i int) bool decreases i {
  if i <= 0 then true
  else if s[i-1] == '\n' then true
  else if s[i-1] == ' ' || s[i-1] == 7 then lead(s, i-1)
  else false
}

spec func isSpaceByte(b int) bool { b == 9 || b == 10 || b == 11 || b == 12 || b == 13 || b == 32 || b == 133 || b == 160 }

// the next byte at or after i that is not a marker, 0 at the end
spec func nextReal(s bytes, i int) int decreases len(s) - i {
  if i >= len(s) then 0 else if i < 0 then 0 else if s[i] == 7 then nextReal(s, i+1) else s[i]
}
spec func nextPos(s bytes, i int) int decreases len(s) - i {
  if i >= len(s) then len(s) else if i < 0 then 0 else if s[i] == 7 then nextPos(s, i+1) else i
}
// the last byte before i that is not a marker, 0 at the start
spec func prevReal(s bytes, i int) int decreases i {
  if i <= 0 then 0 else if s[i-1] == 7 then prevReal(s, i-1) else s[i-1]
}
spec func prevPos(s bytes, i int) int decreases i {
  if i <= 0 then 0 else if s[i-1] == 7 then prevPos(s, i-1) else i
}

func IsSpace(b) (r)
  property C02, C03
  internal
  ensures r == isSpaceByte(b)

func IsDigit(b) (r)
  property C02
  internal
  ensures r == ('0' <= b <= '9')

func getPrev(chars, index) (r)
  property C02
  internal
  requires 0 <= index <= len(chars)
  ensures r == prevReal(chars, index)
  invariant prevReal(chars, i+1) == prevReal(chars, index)

func getNext(chars, index) (r)
  property C02, C03
  internal
  requires -1 <= index < len(chars)
  ensures r == nextReal(chars, index + 1)
  invariant nextReal(chars, i) == nextReal(chars, index + 1)

func getPrevAsRune(chars, index) (r)
  property C02
  internal
  requires 0 <= index <= len(chars)
  ensures prevPos(chars, index) <= 0 ==> r == 0
  ensures prevPos(chars, index) > 0 ==> r == lastRune(chars[:prevPos(chars, index)])
  invariant prevPos(chars, i+1) == prevPos(chars, index)

func getNextAsRune(source, index) (r)
  property C03
  internal
  requires -1 <= index < len(source)
  ensures nextPos(source, index+1) >= len(source) ==> r == 0
  ensures nextPos(source, index+1) < len(source) ==> r == decodeRune(source[nextPos(source, index+1):], 0)
  invariant nextPos(source, i) == nextPos(source, index + 1)

func IsBackslash(chars, index) (r)
  property C03
  requires 0 <= index < len(chars)
  ensures fires: r == (if chars[index] == '\\' then 1 else -1)

func IsInlineCode(chars, index) (r)
  property C03
  requires 0 <= index < len(chars)
  ensures fires: r == (if chars[index] == '`' then 1 else -1)

// ------------------------------------------------------------ fenced code
spec func isFence(b int) bool { b == '`' || b == '~' }
spec func fenceEnd(s bytes, i int) int decreases len(s) - i {
  if i >= len(s) then i else if i < 0 then i else if s[i] == 7 || isFence(s[i]) then fenceEnd(s, i+1) else i
}
spec func fenceCount(s bytes, i int) int decreases len(s) - i {
  if i >= len(s) then 0 else if i < 0 then 0 else if s[i] == 7 then fenceCount(s, i+1) else if isFence(s[i]) then fenceCount(s, i+1) + 1 else 0
}
lemma fenceEnd_range(s bytes, i int)
  requires 0 <= i <= len(s)
  ensures i <= fenceEnd(s, i) <= len(s)
  decreases len(s) - i
  apply fenceEnd_range(s, i+1) when i < len(s)
  trigger fenceEnd(s, i)

func IsFencedCode(chars, index) (r)
  property C02
  requires 0 <= index < len(chars)
  ensures fires: r != -1 <==> isFence(chars[index]) && lead(chars, index) && fenceCount(chars, index+1) >= 2
  ensures span: r != -1 ==> r == fenceEnd(chars, index+1) - index
  ensures range: r == -1 || 1 <= r && index + r <= len(chars)
  invariant L1: lead(chars, i+1) == lead(chars, index)
  invariant L2: count + fenceCount(chars, i) == 1 + fenceCount(chars, index + 1)
  invariant L2: fenceEnd(chars, i) == fenceEnd(chars, index+1)
  invariant L2: index + 1 <= i <= len(chars)
  use fenceEnd_range

// ------------------------------------------------------------ thematic break
// the rest of the line holds only c, spaces and markers
spec func ruleRest(s bytes, i int, c int) bool decreases len(s) - i {
  if i >= len(s) || i < 0 then true
  else if s[i] == 7 || s[i] == ' ' || s[i] == c then ruleRest(s, i+1, c)
  else s[i] == '\n'
}
spec func ruleCount(s bytes, i int, c int) int decreases len(s) - i {
  if i >= len(s) || i < 0 then 0
  else if s[i] == 7 || s[i] == ' ' then ruleCount(s, i+1, c)
  else if s[i] == c then ruleCount(s, i+1, c) + 1
  else 0
}

func IsDivider(chars, index) (r)
  property C02
  requires 0 <= index < len(chars)
  ensures fires: r != -1 <==> (chars[index] == '-' || chars[index] == '_' || chars[index] == '*') && lead(chars, index)
     && ruleRest(chars, index+1, chars[index]) && ruleCount(chars, index+1, chars[index]) >= 2
  ensures range: r == -1 || 1 <= r && index + r <= len(chars)
  invariant L1: lead(chars, i+1) == lead(chars, index)
  invariant L2: count + ruleCount(chars, i, chars[index]) == 1 + ruleCount(chars, index+1, chars[index])
  invariant L2: ruleRest(chars, i, chars[index]) == ruleRest(chars, index+1, chars[index])
  invariant L2: lastChar == len(chars)

// ------------------------------------------------------------ ATX heading
spec func atxRest(s bytes, i int, n int) bool decreases len(s) - i {
  if i >= len(s) || i < 0 then true
  else if s[i] == '#' then n < 6 && atxRest(s, i+1, n+1)
  else if s[i] == 7 then atxRest(s, i+1, n)
  else s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r'
}

func IsAtxHeader(chars, index) (r)
  property C02
  requires 0 <= index < len(chars)
  ensures fires: r != -1 <==> chars[index] == '#' && lead(chars, index) && atxRest(chars, index+1, 1)
  ensures range: r == -1 || 1 <= r && index + r <= len(chars)
  invariant L1: lead(chars, i+1) == lead(chars, index)
  invariant L2: atxRest(chars, i, nPoundSigns) == atxRest(chars, index+1, 1)
  invariant L2: 1 <= nPoundSigns <= 6

// ------------------------------------------------------------ setext heading
// the line above holds text and nothing else separates it from position i
spec func setextAbove(s bytes, i int, n int) bool decreases i {
  if i <= 0 then false
  else if s[i-1] == 7 || s[i-1] == ' ' then setextAbove(s, i-1, n)
  else if s[i-1] == '\n' then setextAbove(s, i-1, n+1)
  else n == 1
}

func IsSetextHeader(chars, index) (r)
  property C02
  requires 0 <= index < len(chars)
  ensures fires: r == (if (chars[index] == '=' || chars[index] == '-') && setextAbove(chars, index, 0) then 1 else -1)
  invariant setextAbove(chars, i+1, newlineCount) == setextAbove(chars, index, 0)
  invariant newlineCount >= 0

// ------------------------------------------------------------ links and images
spec func closes(s bytes, i int) bool decreases len(s) - i {
  if i >= len(s) || i < 0 then false
  else if s[i] == '\n' then false
  else if s[i] == ']' then true
  else closes(s, i+1)
}

func isImageOrLinkStartExclamation(chars, index) (r)
  property C03
  internal
  requires 0 <= index < len(chars)
  ensures r == (if index + 1 < len(chars) && chars[index+1] == '[' then 1 else -1)

func isImageOrLinkStartBracket(chars, index) (r)
  property C03
  internal
  requires 0 <= index < len(chars)
  ensures r == (if closes(chars, index + 1) then 1 else -1)
  invariant closes(chars, i) == closes(chars, index + 1)

func IsImageOrLink(chars, index) (r)
  property C03
  requires 0 <= index < len(chars)
  ensures fires: r == (if chars[index] == '[' && closes(chars, index+1) || chars[index] == '!' && index + 1 < len(chars) && chars[index+1] == '[' then 1 else -1)

// ------------------------------------------------------------ emphasis
spec func opensEmphasis(s bytes, index int) bool {
  nextPos(s, index+1) < len(s) && !isSpaceRune(decodeRune(s[nextPos(s, index+1):], 0)) && decodeRune(s[nextPos(s, index+1):], 0) != 0
}
func IsItalicOrBold(chars, index) (r)
  property C03
  requires 0 <= index < len(chars)
  ensures fires: r == (if (chars[index] == '*' || chars[index] == '_') && opensEmphasis(chars, index) then 1 else -1)

// ------------------------------------------------------------ lists
func IsUnorderedList(chars, index) (r)
  property C02
  requires 0 <= index < len(chars)
  ensures fires: r == (if (chars[index] == '-' || chars[index] == '*' || chars[index] == '+') && lead(chars, index)
     && (isSpaceByte(nextReal(chars, index+1)) || nextReal(chars, index+1) == 0) then 1 else -1)
  invariant lead(chars, i+1) == lead(chars, index)

// digits, spaces and markers only, back to the start of the line
spec func leadNum(s bytes, i int) bool decreases i {
  if i <= 0 then true
  else if s[i-1] == '\n' then true
  else if s[i-1] == ' ' || s[i-1] == 7 || '0' <= s[i-1] <= '9' then leadNum(s, i-1)
  else false
}
func IsOrderedList(chars, index) (r)
  property C02
  requires 0 <= index < len(chars)
  ensures complete: (chars[index] == '.' || chars[index] == ')') && '0' <= prevReal(chars, index) <= '9' && leadNum(chars, index)
     && (isSpaceByte(nextReal(chars, index+1)) || nextReal(chars, index+1) == 0) ==> r == 1
  ensures needed: r != -1 ==> r == 1 && (chars[index] == '.' || chars[index] == ')') && leadNum(chars, index)
     && (isSpaceByte(nextReal(chars, index+1)) || nextReal(chars, index+1) == 0) && prevPos(chars, index) > 0
     && prevReal(chars, index) != '\n' && prevReal(chars, index) != ' '
  invariant leadNum(chars, i+1) == leadNum(chars, index)
  use lastRune_prev

func IsBlockQuote(chars, index) (r)
  property C02
  requires 0 <= index < len(chars)
  ensures fires: r == (if chars[index] == '>' && lead(chars, index) then 1 else -1)
  invariant lead(chars, i+1) == lead(chars, index)

lemma lastRune_prev(s bytes, i int)
  requires 0 <= i <= len(s)
  ensures 0 <= prevPos(s, i) <= i
  ensures prevPos(s, i) > 0 ==> s[prevPos(s, i) - 1] == prevReal(s, i)
  ensures prevPos(s, i) <= 0 ==> prevReal(s, i) == 0
  decreases i
  apply lastRune_prev(s, i-1) when i > 0
  trigger prevPos(s, i)
