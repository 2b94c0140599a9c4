// webpage.js PAGE: where the value of the password field can flow in the page's scripts (prints JSON)
'use strict'
const ts = require('typescript'), fs = require('fs'), path = require('path')
const html = fs.readFileSync(process.argv[2], 'utf8')
const lineAt = pos => html.slice(0, pos).split('\n').length
const out = { scripts: [], elements: [], sinks: [], items: [] }
const ob = (rule, subject, ok, line, msg) => out.items.push({ rule, subject, ok, line, msg: msg || '' })

// --- tags
const tags = []
const scripts = []
{
  const re = /<!--[\s\S]*?-->|<(\/?)([a-zA-Z][\w-]*)((?:\s+[^\s=>\/"']+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?)*)\s*(\/?)>/g
  let m
  while ((m = re.exec(html))) {
    if (!m[2]) continue
    const name = m[2].toLowerCase(), attrs = {}
    const ar = /([^\s=>\/"']+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g
    let a
    while ((a = ar.exec(m[3] || ''))) attrs[a[1].toLowerCase()] = a[2] !== undefined ? a[2] : a[3] !== undefined ? a[3] : a[4] !== undefined ? a[4] : ''
    tags.push({ name, attrs, close: !!m[1], pos: m.index })
    if ((name === 'script' || name === 'style') && !m[1]) {
      const e = html.toLowerCase().indexOf('</' + name, re.lastIndex)
      const end = e < 0 ? html.length : e
      if (name === 'script' && attrs.src === undefined) scripts.push({ text: html.slice(re.lastIndex, end), line: lineAt(re.lastIndex) })
      if (name === 'script' && attrs.src !== undefined) {
        const f = path.join(path.dirname(process.argv[2]), attrs.src)
        if (!/^(https?:)?\/\//.test(attrs.src) && fs.existsSync(f) && !/md5(\.min)?\.js$/i.test(attrs.src)) scripts.push({ text: fs.readFileSync(f, 'utf8'), line: 1, file: attrs.src })
      }
      re.lastIndex = end
    }
  }
}
const byId = {}
let form = null
for (const t of tags) {
  if (t.name === 'form') form = t.close ? null : t
  if (!t.close) { t.form = form; if (t.attrs.id) byId[t.attrs.id] = t }
}
const secretIds = new Set(tags.filter(t => !t.close && t.name === 'input' && (t.attrs.type || '').toLowerCase() === 'password').map(t => t.attrs.id || t.attrs.name).filter(Boolean))

// --- scripts as one program
const files = scripts.map((s, k) => ({ sf: ts.createSourceFile('s' + k + '.js', s.text, ts.ScriptTarget.Latest, true, ts.ScriptKind.JS), line: s.line }))
for (const f of files) out.scripts.push('line ' + f.line)
const lineOf = n => { const f = files.find(x => x.sf === n.getSourceFile()); return f.line + f.sf.getLineAndCharacterOfPosition(n.getStart()).line }
const walk = (n, fn) => { fn(n); ts.forEachChild(n, c => walk(c, fn)) }
const all = fn => files.forEach(f => walk(f.sf, fn))

// scopes: resolve an identifier to its declaration
const scopeOf = new Map()
const isScope = n => ts.isFunctionLike(n) || ts.isBlock(n) || ts.isSourceFile(n) || ts.isForStatement(n) || ts.isForOfStatement(n) || ts.isForInStatement(n) || ts.isCatchClause(n)
const declare = (id, decl, from) => {
  if (ts.isIdentifier(id)) { let s = from; while (!isScope(s)) s = s.parent; if (!scopeOf.has(s)) scopeOf.set(s, new Map()); scopeOf.get(s).set(id.text, decl || id) }
  else if (id.elements) for (const e of id.elements) if (e.name) declare(e.name, e, from)
}
all(n => {
  if (ts.isVariableDeclaration(n)) declare(n.name, n, n.parent.parent.parent && ts.isVariableDeclarationList(n.parent) ? n.parent.parent : n)
  else if (ts.isParameter(n)) declare(n.name, n, n.parent)
  else if (ts.isFunctionDeclaration(n) && n.name) declare(n.name, n, n.parent)
})
const lookup = id => { let s = id.parent; while (s) { const m = scopeOf.get(s); if (m && m.has(id.text)) return m.get(id.text); s = s.parent } return null }
const strip = n => { while (n && (ts.isParenthesizedExpression(n) || ts.isAsExpression && ts.isAsExpression(n) || ts.isNonNullExpression(n))) n = n.expression; return n }
const member = n => { n = strip(n); if (ts.isPropertyAccessExpression(n)) return n.name.text; if (ts.isElementAccessExpression(n) && n.argumentExpression && ts.isStringLiteralLike(n.argumentExpression)) return n.argumentExpression.text; return null }

// facts about declarations / members: elements they denote (ids), whether they carry the secret
const key = d => d
const elems = new Map()      // decl or 'member:path' -> Set(ids)
const taint = new Map()      // decl or 'prop:decl.member' -> origin text
const add = (m, k, v) => { if (!k) return false; if (!m.has(k)) m.set(k, new Set()); const s = m.get(k); const n = s.size; for (const x of v) s.add(x); return s.size !== n }
const pathKey = n => { n = strip(n); if (ts.isIdentifier(n)) return lookup(n) || 'global:' + n.text; const m = member(n); if (m !== null) { const b = pathKey(n.expression); if (!b) return null; return keyOf(b, m) } if (n.kind === ts.SyntaxKind.ThisKeyword) return 'this'; return null }
const ids = new Map(); let idc = 0
const keyOf = (b, m) => { const s = typeof b === 'string' ? b : (ids.has(b) || ids.set(b, 'd' + idc++), ids.get(b)); return s + '.' + m }
const funcOf = n => {
  n = strip(n)
  if (!n) return null
  if (ts.isArrowFunction(n) || ts.isFunctionExpression(n) || ts.isFunctionDeclaration(n)) return n
  if (ts.isIdentifier(n)) { const d = lookup(n); if (!d) return null; if (ts.isFunctionDeclaration(d)) return d; if (ts.isVariableDeclaration(d) && d.initializer) { const i = strip(d.initializer); if (ts.isArrowFunction(i) || ts.isFunctionExpression(i)) return i } }
  return null
}
const MD5 = /^(md5|sha1|sha256|sha512|hex_md5|b64_md5|str_md5)$/i
const KEEP = new Set(['trim', 'toLowerCase', 'toUpperCase', 'substring', 'substr', 'slice', 'normalize', 'concat', 'replace', 'replaceAll', 'charAt', 'at', 'split', 'join', 'repeat', 'padStart', 'padEnd', 'toString', 'valueOf', 'map', 'reverse', 'charCodeAt', 'codePointAt', 'encode', 'filter', 'trimStart', 'trimEnd', 'shift', 'pop'])
const KEEPF = new Set(['encodeURIComponent', 'encodeURI', 'escape', 'btoa', 'String', 'unescape', 'decodeURIComponent'])
const elementsOf = n => {
  n = strip(n); if (!n) return new Set()
  if (ts.isCallExpression(n)) {
    const c = n.expression, m = member(c), a = n.arguments[0]
    if (m === 'getElementById' && a && ts.isStringLiteralLike(a)) return new Set([a.text])
    if ((m === 'querySelector' || m === 'querySelectorAll') && a && ts.isStringLiteralLike(a)) {
      const q = a.text; const r = new Set()
      const mm = /#([\w-]+)/.exec(q); if (mm) r.add(mm[1]); else if (/type=["']?password/.test(q) || q === 'input') for (const s of secretIds) r.add(s)
      return r
    }
    const f = funcOf(c)
    if (f) { const r = new Set(); if (elems.has(f)) for (const x of elems.get(f)) r.add(x); return r }
    return new Set()
  }
  if (ts.isConditionalExpression(n)) return new Set([...elementsOf(n.whenTrue), ...elementsOf(n.whenFalse)])
  if (ts.isBinaryExpression(n) && /\|\||\?\?|&&/.test(n.operatorToken.getText())) return new Set([...elementsOf(n.left), ...elementsOf(n.right)])
  const k = pathKey(n); const r = new Set(k && elems.get(k) || [])
  const m = member(n)
  if (m === 'target' || m === 'currentTarget' || m === 'srcElement') { const b = pathKey(n.expression); if (b && elems.has(b)) for (const x of elems.get(b)) r.add(x) }
  return r
}
const secretElement = n => [...elementsOf(n)].some(x => secretIds.has(x) || hashed.has(x))
const hashed = new Set()     // ids whose value is handed to the hash
const carries = n => {
  n = strip(n); if (!n) return false
  if (ts.isStringLiteralLike(n) || ts.isNumericLiteral(n)) return false
  if (ts.isTemplateExpression(n)) return n.templateSpans.some(s => carries(s.expression))
  if (ts.isTaggedTemplateExpression && ts.isTaggedTemplateExpression(n)) return false
  if (ts.isBinaryExpression(n)) {
    const o = n.operatorToken.kind
    if (o === ts.SyntaxKind.PlusToken || o === ts.SyntaxKind.BarBarToken || o === ts.SyntaxKind.QuestionQuestionToken) return carries(n.left) || carries(n.right)
    if (o === ts.SyntaxKind.AmpersandAmpersandToken || o === ts.SyntaxKind.CommaToken || o === ts.SyntaxKind.EqualsToken) return carries(n.right)
    return false
  }
  if (ts.isConditionalExpression(n)) return carries(n.whenTrue) || carries(n.whenFalse)
  if (ts.isArrayLiteralExpression(n)) return n.elements.some(e => carries(ts.isSpreadElement(e) ? e.expression : e))
  if (ts.isObjectLiteralExpression(n)) return n.properties.some(p => ts.isPropertyAssignment(p) ? carries(p.initializer) : ts.isShorthandPropertyAssignment(p) ? carries(p.name) : ts.isSpreadAssignment(p) && carries(p.expression))
  if (ts.isAwaitExpression(n)) return carries(n.expression)
  if (ts.isNewExpression(n)) return (n.arguments || []).some(carries) && /^(URL|URLSearchParams|Blob|FormData|Error|String|Headers|Request)$/.test(n.expression.getText())
  if (ts.isCallExpression(n)) {
    const c = strip(n.expression), m = member(c)
    const nm = m !== null ? m : ts.isIdentifier(c) ? c.text : ''
    if (MD5.test(nm)) return false
    if (m !== null && KEEP.has(m)) return carries(c.expression) || n.arguments.some(a => (m === 'concat' || m === 'replace') && carries(a))
    if (nm === 'stringify' || nm === 'from' || KEEPF.has(nm)) return n.arguments.some(carries)
    const f = funcOf(c)
    if (f) return taint.has(f)
    return false
  }
  if (ts.isIdentifier(n)) { const d = lookup(n); return !!d && taint.has(d) }
  const m = member(n)
  if (m !== null) {
    if (m === 'value' && secretElement(n.expression)) return true
    if (m === 'length') return false
    const k = pathKey(n); if (k && taint.has(k)) return true
    return false
  }
  if (ts.isElementAccessExpression(n)) return carries(n.expression)
  return false
}
// fixpoint over assignments, calls, returns
let changed = true
const mark = k => { if (k && !taint.has(k)) { taint.set(k, true); changed = true } }
const bindPattern = (name, init) => {
  if (ts.isIdentifier(name)) return
  if (ts.isObjectBindingPattern(name)) for (const e of name.elements) {
    const pn = (e.propertyName || e.name).text
    if (pn === 'value' && secretElement(init)) mark(e)
    else if (pn === 'target' || pn === 'currentTarget') { if (add(elems, e, elementsOf(init))) changed = true }
    else { const b = pathKey(init); if (b) { const k = keyOf(b, pn); if (elems.has(k) && add(elems, e, elems.get(k))) changed = true; if (taint.has(k)) mark(e) } }
  }
}
for (let r = 0; r < 20 && changed; r++) {
  changed = false
  all(n => {
    if (ts.isVariableDeclaration(n) && n.initializer) {
      if (ts.isIdentifier(n.name)) { if (add(elems, n, elementsOf(n.initializer))) changed = true; if (carries(n.initializer)) mark(n) } else bindPattern(n.name, n.initializer)
      objectLit(n, n.initializer)
    } else if (ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.EqualsToken || ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.PlusEqualsToken) {
      const k = pathKey(n.left)
      if (k) { if (add(elems, k, elementsOf(n.right))) changed = true; if (carries(n.right) && !elementsOf(strip(n.left).expression || n.left).size) mark(k); objectLit(k, n.right) }
    } else if (ts.isCallExpression(n)) {
      const f = funcOf(n.expression), m = member(n.expression)
      if (f) n.arguments.forEach((a, i) => { const p = f.parameters[i]; if (!p) return; if (ts.isIdentifier(p.name)) { if (add(elems, p, elementsOf(a))) changed = true; if (carries(a)) mark(p) } else bindPattern(p.name, a) })
      const nm = m !== null ? m : n.expression.getText()
      if (MD5.test(nm)) n.arguments.forEach(a => { const v = strip(a); valueIds(v).forEach(x => { if (!hashed.has(x)) { hashed.add(x); changed = true } }) })
      if (m === 'addEventListener') { const h = funcOf(n.arguments[1]); const es = elementsOf(n.expression.expression); if (h && h.parameters[0]) { if (ts.isIdentifier(h.parameters[0].name)) { if (add(elems, h.parameters[0], es)) changed = true } } }
      if (m === 'then' || m === 'forEach' || m === 'map') { const h = funcOf(n.arguments[0]); if (h && h.parameters[0] && carries(n.expression.expression)) mark(h.parameters[0]) }
    } else if (ts.isReturnStatement(n) && n.expression) {
      let f = n.parent; while (f && !ts.isFunctionLike(f)) f = f.parent
      if (f) { if (carries(n.expression)) mark(f); if (add(elems, f, elementsOf(n.expression))) changed = true }
    } else if (ts.isArrowFunction(n) && !ts.isBlock(n.body)) { if (carries(n.body)) mark(n); if (add(elems, n, elementsOf(n.body))) changed = true }
    else if (ts.isForOfStatement(n) && carries(n.expression) && ts.isVariableDeclarationList(n.initializer)) mark(n.initializer.declarations[0])
  })
}
function objectLit(k, n) {
  n = strip(n)
  if (!n || !ts.isObjectLiteralExpression(n)) return
  for (const p of n.properties) if (ts.isPropertyAssignment(p) && (ts.isIdentifier(p.name) || ts.isStringLiteralLike(p.name))) {
    const kk = keyOf(k, p.name.text)
    if (add(elems, kk, elementsOf(p.initializer))) changed = true
    if (carries(p.initializer)) mark(kk)
    objectLit(kk, p.initializer)
  }
}
function valueIds(v) {
  if (!v) return []
  if (member(v) === 'value') return [...elementsOf(v.expression)]
  if (ts.isCallExpression(v) && member(v.expression) !== null && KEEP.has(member(v.expression))) return valueIds(strip(v.expression.expression))
  if (ts.isIdentifier(v)) { const d = lookup(v); if (d && ts.isVariableDeclaration(d) && d.initializer) return valueIds(strip(d.initializer))
    if (d && ts.isBindingElement(d) && (d.propertyName || d.name).text === 'value' && ts.isVariableDeclaration(d.parent.parent) && d.parent.parent.initializer) return [...elementsOf(d.parent.parent.initializer)] }
  return []
}
const secret = new Set([...secretIds, ...hashed])
for (const x of secret) out.elements.push(x)
// --- the field itself
for (const x of hashed) {
  const t = byId[x]
  if (!t) continue
  if (t.name === 'input') {
    const ty = (t.attrs.type || 'text').toLowerCase()
    ob('the field hides what is typed', '#' + x, ty === 'password', lineAt(t.pos), ty === 'password' ? '' : 'the field whose content is looked up is of type ' + ty + ': what is typed is shown')
  } else ob('the field hides what is typed', '#' + x, t.name === 'textarea' ? false : null, lineAt(t.pos), 'the field is a ' + t.name)
}
for (const x of secret) {
  const t = byId[x]
  if (!t) continue
  if (t.form && t.attrs.name !== undefined && t.attrs.name !== '') {
    const sub = t.form.attrs.onsubmit || ''
    let prevented = /return\s+false|preventDefault/.test(sub)
    all(n => { if (ts.isCallExpression(n) && member(n.expression) === 'addEventListener' && n.arguments[0] && n.arguments[0].getText().replace(/['"`]/g, '') === 'submit' && /preventDefault|return false/.test(n.getText())) prevented = true })
    ob('the page does not submit the password', '#' + x, prevented ? null : false, lineAt(t.pos), prevented ? '' : 'the field has a name and lies in a form: submitting the form sends what was typed')
  } else ob('the page does not submit the password', '#' + x, true, lineAt(t.pos))
}
// --- sinks
const DOMPROP = /^(innerHTML|outerHTML|innerText|textContent|title|placeholder|alt|href|src|cookie|nodeValue|data|className|id|hash|search|name|action)$/
let bad = 0
const report = (n, what) => { bad++; ob('the password goes nowhere but into its hash', what, false, lineOf(n), 'what was typed flows into ' + what) }
all(n => {
  if (ts.isCallExpression(n) || ts.isNewExpression(n)) {
    const c = strip(n.expression), m = member(c), nm = m !== null ? m : c.getText(), args = n.arguments || []
    const base = m !== null ? strip(c.expression).getText().replace(/^window\.|^self\.|^globalThis\./, '') : ''
    const full = (base ? base + '.' : '') + nm
    let what = null
    if (/^(fetch|window\.fetch|axios|axios\.\w+|\$\.(get|post|ajax|getJSON)|jQuery\.\w+)$/.test(full)) what = 'a request (' + nm + ')'
    else if (nm === 'sendBeacon') what = 'a request (sendBeacon)'
    else if (m !== null && (nm === 'send' || nm === 'open' || nm === 'postMessage')) what = nm + '()'
    else if (/^console\.\w+$/.test(full)) what = 'the console'
    else if (/^(localStorage|sessionStorage)\.setItem$/.test(full)) what = 'storage'
    else if (/^(alert|prompt|confirm)$/.test(full)) what = 'a dialog'
    else if (/^history\.(pushState|replaceState)$/.test(full) || /^location\.(assign|replace)$/.test(full)) what = 'the address'
    else if (/^document\.(write|writeln|createTextNode)$/.test(full)) what = 'the page'
    else if (m !== null && /^(insertAdjacentHTML|insertAdjacentText|append|prepend|setAttribute|appendData|replaceWith|replaceChildren|after|before)$/.test(nm) && elementsOf(c.expression).size) what = 'the page (' + nm + ')'
    else if (ts.isNewExpression(n) && /^(WebSocket|EventSource|Worker|Request)$/.test(nm)) what = nm
    if (what) {
      out.sinks.push('line ' + lineOf(n) + ' ' + nm)
      if ([...args].some(carries)) report(n, what)
      if (nm === 'setAttribute' && [...elementsOf(c.expression)].some(x => secret.has(x)) && args[0] && args[0].getText().replace(/['"`]/g, '') === 'type' && args[1] && args[1].getText().replace(/['"`]/g, '') === 'text') report(n, 'the screen: the field is made readable')
    }
  } else if (ts.isBinaryExpression(n) && (n.operatorToken.kind === ts.SyntaxKind.EqualsToken || n.operatorToken.kind === ts.SyntaxKind.PlusEqualsToken)) {
    const m = member(n.left), L = strip(n.left)
    if (m === null) { if (ts.isIdentifier(L) && L.text === 'location' && carries(n.right)) report(n, 'the address'); return }
    const b = strip(L.expression), bt = b.getText().replace(/^window\./, '')
    if (/^(localStorage|sessionStorage)$/.test(bt)) { out.sinks.push('line ' + lineOf(n) + ' ' + bt); if (carries(n.right)) report(n, 'storage') }
    else if (/(^|\.)location$/.test(bt) || /^(window\.)?location$/.test(L.getText())) { out.sinks.push('line ' + lineOf(n)); if (carries(n.right)) report(n, 'the address') }
    else if (DOMPROP.test(m)) { out.sinks.push('line ' + lineOf(n) + ' ' + m); if (carries(n.right)) report(n, m === 'cookie' ? 'a cookie' : 'the page (' + m + ')') }
    else if (m === 'value') { const es = [...elementsOf(b)]; if (es.length && !es.some(x => secret.has(x)) && carries(n.right) && es.every(x => byId[x] && (byId[x].attrs.type || 'text').toLowerCase() !== 'password')) report(n, 'another field') }
    else if (m === 'type') { const es = [...elementsOf(b)]; if (es.length && es.every(x => secret.has(x)) && ts.isStringLiteralLike(strip(n.right)) && strip(n.right).text !== 'password') report(n, 'the screen: the field is made readable') }
  }
})
if (!bad) ob('the password goes nowhere but into its hash', out.sinks.length + ' sinks', hashed.size ? true : null, 1, hashed.size ? '' : 'no field is handed to a hash')
console.log(JSON.stringify(out))
