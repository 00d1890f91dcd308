#!/bin/bash
# try.sh 'html' ... : print conversions (quoted)
. /tmp/env.sh
cd ${REPO:-/repo}
D=$(mktemp -d)
cat > $D/t_test.go <<'G'
package htmltomarkdown_test
import ("testing";"fmt";"os";"strings";"strconv"
 "github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
)
func TestTry(t *testing.T){
 for _, s := range strings.Split(os.Getenv("TRY"),"\x1e") {
  if u, err := strconv.Unquote(`"`+s+`"`); err==nil { s=u }
  func(){ defer func(){ if r:=recover();r!=nil{fmt.Printf("%q PANIC %v\n",s,r)}}()
  c:=converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(), strikethrough.NewStrikethroughPlugin(), table.NewTablePlugin()))
  o,err:=c.ConvertString(s); fmt.Printf("%q -> %q %v\n",s,o,err) }()
 }
}
G
echo "{\"Replace\":{\"$PWD/zz_try_test.go\":\"$D/t_test.go\"}}" > $D/ov.json
export TRY=$(printf '%s\x1e' "$@")
go test -overlay $D/ov.json -vet=off -count=1 -run '^TestTry$' -v . 2>&1 | grep -- '->\|PANIC\|error' 
rm -r -f $D
