// Dumps ccc / NFD / NFKD / NFC / NFKC of every scalar as known to golang.org/x/text (Unicode 17 tables, Go 1.27's vendored copy).
package main

import (
	"bufio"
	"fmt"
	"os"

	"mk/norm"
)

func hx(s string) string {
	o := ""
	for i, r := range []rune(s) {
		if i > 0 {
			o += " "
		}
		o += fmt.Sprintf("%X", r)
	}
	return o
}

func main() {
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	fmt.Fprintln(w, "#", norm.Version)
	for c := rune(0); c <= 0x10ffff; c++ {
		if c >= 0xd800 && c <= 0xdfff {
			continue
		}
		s := string(c)
		p := norm.NFC.PropertiesString(s)
		fmt.Fprintf(w, "%X;%d;%s;%s;%s;%s\n", c, p.CCC(), hx(norm.NFD.String(s)), hx(norm.NFKD.String(s)), hx(norm.NFC.String(s)), hx(norm.NFKC.String(s)))
	}
}
