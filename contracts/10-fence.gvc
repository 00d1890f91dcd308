package internal/textutils

// length of the run of c that ends just before position i
spec func run(s bytes, c int, i int) int decreases i {
  if i <= 0 then 0 else if s[i-1] == c then run(s, c, i-1) + 1 else 0
}
// longest run of c within s[:i]
spec func maxrun(s bytes, c int, i int) int decreases i {
  if i <= 0 then 0 else max(maxrun(s, c, i-1), run(s, c, i))
}
spec func maxof(a seq[int], n int) int decreases n {
  if n <= 0 then 0 else max(maxof(a, n-1), a[n-1])
}

lemma maxof_cong(a seq[int], b seq[int], n int)
  requires 0 <= n <= len(a) && n <= len(b)
  requires forall k int {a[k]} :: 0 <= k < n ==> a[k] == b[k]
  ensures maxof(a, n) == maxof(b, n)
  decreases n
  apply maxof_cong(a, b, n-1) when n > 0

lemma maxof_append(a seq[int], v int)
  ensures maxof(a + one(v), len(a) + 1) == max(maxof(a, len(a)), v)
  apply maxof_cong(a, a + one(v), len(a))
  trigger a + one(v)

lemma maxof_bounds(a seq[int], n int)
  requires 0 <= n <= len(a)
  ensures maxof(a, n) >= 0
  ensures forall k int {a[k]} :: 0 <= k < n ==> a[k] <= maxof(a, n)
  decreases n
  apply maxof_bounds(a, n-1) when n > 0

lemma run_le_max(s bytes, c int, i int, n int)
  requires 0 <= i <= n
  ensures run(s, c, i) <= maxrun(s, c, n)
  decreases n
  apply run_le_max(s, c, i, n-1) when i < n

lemma run_nonneg(s bytes, c int, i int)
  ensures run(s, c, i) >= 0
  decreases i
  apply run_nonneg(s, c, i-1) when i > 0
  trigger run(s, c, i)

lemma maxrun_nonneg(s bytes, c int, i int)
  ensures maxrun(s, c, i) >= 0
  decreases i
  apply maxrun_nonneg(s, c, i-1) when i > 0
  trigger maxrun(s, c, i)

lemma high_run(s bytes, c int, i int, w int)
  requires 0 <= i && 1 <= w && 0 <= c < 128
  requires forall k int {s[k]} :: i <= k < i + w ==> s[k] >= 128
  ensures run(s, c, i + w) == 0
  ensures maxrun(s, c, i + w) == maxrun(s, c, i)
  decreases w
  apply high_run(s, c, i, w-1) when w > 1
  use maxrun_nonneg

// stepping over one multi-byte rune adds no fence character
lemma high_rune(s bytes, c int, i int)
  requires 0 <= i < len(s) && 0 <= c < 128 && s[i] >= 128
  ensures run(s, c, i + runeWidth(s, i)) == 0
  ensures maxrun(s, c, i + runeWidth(s, i)) == maxrun(s, c, i)
  trigger runeWidth(s, i), run(s, c, i)
  apply high_run(s, c, i, runeWidth(s, i))

func findMax(a) (max)
  property C04
  internal
  requires forall k int {a[k]} :: 0 <= k < len(a) ==> a[k] >= 0
  ensures max == maxof(a, len(a))
  invariant max == maxof(a, $i)
  invariant forall k int {a[k]} :: 0 <= k < $i ==> a[k] <= max
  use maxof_bounds

// the longest run of the fence character
func CalculateCodeFenceOccurrences(fenceChar, content) (n)
  property C04
  requires 0 <= fenceChar < 128
  ensures longest: n == maxrun(content, fenceChar, len(content))
  invariant charsTogether == run(content, fenceChar, $pos)
  invariant max(maxof(occurrences, len(occurrences)), charsTogether) == maxrun(content, fenceChar, $pos)
  invariant forall k int {occurrences[k]} :: 0 <= k < len(occurrences) ==> occurrences[k] >= 0
  invariant 0 <= $pos <= len(content)
  use maxof_append, run_nonneg, maxrun_nonneg, high_rune

func CalculateCodeFence(fenceChar, content) (r)
  property C04
  requires 0 <= fenceChar < 128
  ensures only_fence: r == rep(fenceChar, len(r))
  ensures at_least_three: len(r) >= 3
  ensures longer_than_content: len(r) > maxrun(content, fenceChar, len(content))
  ensures minimal: len(r) == max(3, maxrun(content, fenceChar, len(content)) + 1)
  use maxrun_nonneg
