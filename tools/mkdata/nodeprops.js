// Dumps NFD/NFKD/NFC/NFKC + gc(M) + assigned of every scalar as known to node's ICU (Unicode 17).
const hx = s => Array.from(s, ch => ch.codePointAt(0).toString(16).toUpperCase()).join(' ');
const out = ['# ' + process.versions.unicode];
for (let c = 0; c <= 0x10ffff; c++) {
  if (c >= 0xd800 && c <= 0xdfff) continue;
  const s = String.fromCodePoint(c);
  out.push([c.toString(16).toUpperCase(), /\p{M}/u.test(s) ? 1 : 0, /\p{Cn}/u.test(s) ? 0 : 1,
    hx(s.normalize('NFD')), hx(s.normalize('NFKD')), hx(s.normalize('NFC')), hx(s.normalize('NFKC'))].join(';'));
}
require('fs').writeFileSync(1, out.join('\n') + '\n');
