'use strict'
// Runs the VS Code extensions of /repo/code in a stand-in editor, against their real native modules (served by
// `harness bridge`), through random histories of documents, and judges what reaches either side.

const fs = require('fs')
const path = require('path')
const Module = require('module')
const { spawn, execFileSync } = require('child_process')
const editor = require('./vscode.js')
const { Position, Range, Selection, TextDocument } = editor

const opt = {}
for (let i = 2; i < process.argv.length; i += 2) opt[process.argv[i].slice(2)] = process.argv[i + 1]
const REPO = opt.repo, WORK = opt.work, SEED = +opt.seed, WORKER = +opt.worker, WORKERS = +opt.workers
const SECS = +opt.secs, CASES = +opt.cases
const ts = require('/opt/veriftools/node/node_modules/typescript')

// ---- random numbers
function mix(h) { h = Math.imul(h ^ (h >>> 16), 0x45d9f3b); h = Math.imul(h ^ (h >>> 15), 0x119de1f3); return (h ^ (h >>> 16)) >>> 0 }
class Rng {
    constructor(seed) { this.s = mix(seed >>> 0) || 1 }
    next() { let x = this.s; x ^= x << 13; x ^= x >>> 17; x ^= x << 5; this.s = x >>> 0; return mix(this.s) }
    below(n) { return n <= 0 ? 0 : this.next() % n }
    chance(a, b) { return this.below(b) < a }
    pick(xs) { return xs[this.below(xs.length)] }
}

// ---- the native side
class Backend {
    constructor() {
        const fin = path.join(WORK, 'in'), fout = path.join(WORK, 'out')
        execFileSync('mkfifo', [fin, fout])
        this.child = spawn('/bin/sh', ['-c', 'ulimit -c 0; exec "$0" bridge < "$1" > "$2" 2> "$3"', opt.exe, fin, fout, path.join(WORK, 'stderr')], { stdio: 'ignore' })
        this.w = fs.openSync(fin, 'w')
        this.r = fs.openSync(fout, 'r')
        this.rest = Buffer.alloc(0)
        this.calls = 0
    }
    ask(req) {
        this.calls++
        const b = Buffer.from(JSON.stringify(req) + '\n')
        for (let at = 0; at < b.length;) at += fs.writeSync(this.w, b, at)
        const chunks = [this.rest]
        for (; ;) {
            const last = chunks[chunks.length - 1]
            const nl = last.indexOf(10)
            if (nl >= 0) {
                this.rest = last.subarray(nl + 1)
                chunks[chunks.length - 1] = last.subarray(0, nl)
                return JSON.parse(Buffer.concat(chunks).toString())
            }
            const buf = Buffer.alloc(1 << 16)
            const n = fs.readSync(this.r, buf)
            if (n === 0) throw new Stop('the native process died', '')
            chunks.push(buf.subarray(0, n))
        }
    }
    plain(req) {
        const res = this.ask(req)
        if ('ok' in res) return res.ok
        throw new Broken(res)
    }
}
class Stop extends Error { constructor(sig, detail) { super(sig); this.sig = sig; this.detail = detail } }
/// The library itself has no answer.
class Broken extends Error { }

const backend = new Backend()
let journal = []
/// The native object of the last call.
let touched = null

function native(lang) {
    return new Proxy({}, {
        get(_, f) {
            if (typeof f !== 'string') return undefined
            return (...args) => {
                let callback = null
                const a = args.map((x) => { if (typeof x === 'function') { callback = x; return { $fun: true } } return x })
                // (undefined and NaN have no JSON)
                const res = backend.ask({ do: 'call', lang, f, a })
                if (a.length && a[0] && a[0].$obj !== undefined) touched = a[0].$obj
                if ('panic' in res) throw new Stop(`native panic: ${res.panic}`, `${lang}.${f}(${JSON.stringify(a.slice(1))})`)
                if ('throw' in res) throw new Stop(`native exception: ${res.throw}`, `${lang}.${f}(${JSON.stringify(a.slice(1))})`)
                if (callback) { callback(...res.ok.$called); return null }
                return res.ok
            }
        }
    })
}

// ---- the extensions
function compile() {
    for (const lang of ['fall', 'rust']) {
        const out = path.join(WORK, lang)
        fs.mkdirSync(out, { recursive: true })
        for (const f of ['common.ts', 'main.ts']) {
            const src = fs.readFileSync(path.join(REPO, 'code', lang, 'src', f), 'utf8')
            const res = ts.transpileModule(src, { reportDiagnostics: true, compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2015 } })
            if (res.diagnostics.length) { console.error('TypeScript: ' + JSON.stringify(res.diagnostics.map((d) => d.messageText))); process.exit(3) }
            fs.writeFileSync(path.join(out, f.replace('.ts', '.js')), res.outputText)
        }
    }
}

let loading = null
const load = Module._load
Module._load = function (request, parent, isMain) {
    if (loading && request === 'vscode') return loading.api
    if (loading && request.endsWith('/native')) return native(loading.lang)
    return load.call(this, request, parent, isMain)
}

function activate(lang, folders) {
    const host = editor.create(folders)
    loading = { api: host.api, lang }
    for (const f of ['common.js', 'main.js']) delete require.cache[require.resolve(path.join(WORK, lang, f))]
    const main = require(path.join(WORK, lang, 'main.js'))
    main.activate({ subscriptions: [] })
    loading = null
    return host
}

// ---- judging
const report = { evaluations: 0, distinct: new Set(), counters: {}, maxima: {}, violations: [], samples: [], inconclusive: [] }
const count = (k, n = 1) => { report.counters[k] = (report.counters[k] || 0) + n }
const bytes = (text, o16) => Buffer.byteLength(text.substring(0, o16))
function utf16(text, byte) {
    const b = Buffer.from(text)
    const s = b.toString('utf8', 0, byte)
    if (Buffer.byteLength(s) !== byte || s.includes('\ufffd') && !text.includes('\ufffd')) throw new Error('inside of a character')
    return s.length
}
const pos = (doc, byte) => doc.positionAt(utf16(doc.text, byte))
const rangeOf = (doc, r) => new Range(pos(doc, r[0]), pos(doc, r[1]))
const show = (r) => r == null ? String(r) : `${r.start.line}:${r.start.character}-${r.end.line}:${r.end.character}`
function same(what, got, want, extra) {
    count('compared: ' + what)
    if (got !== want) throw new Stop(`${what}: another answer than the library's`, `${extra || ''}\n--- extension ---\n${got}\n--- library ---\n${want}`)
}

/// What the editor makes of a list of edits: all of them refer to the text before.
function applyEdits(doc, edits, what) {
    const list = edits.map((e, i) => ({ s: doc.offsetAt(e.range.start), e: doc.offsetAt(e.range.end), t: e.newText, i }))
    list.sort((a, b) => a.s - b.s || a.e - b.e || a.i - b.i)
    let out = '', at = 0
    for (const x of list) {
        if (x.s < at) throw new Stop(`${what}: overlapping edits`, JSON.stringify(list))
        out += doc.text.substring(at, x.s) + x.t
        at = x.e
    }
    return out + doc.text.substring(at)
}

function pairHalf(text, i) { return i > 0 && i < text.length && /[\ud800-\udbff]/.test(text[i - 1]) && /[\udc00-\udfff]/.test(text[i]) }
function offset(rng, text) {
    let i
    if (rng.chance(1, 8)) i = rng.pick([0, text.length])
    else i = rng.below(text.length + 1)
    if (pairHalf(text, i)) i--
    if (i > 0 && text[i - 1] === '\r' && text[i] === '\n') i--
    return i
}
const wellFormed = (s) => s.replace(/[\ud800-\udbff](?![\udc00-\udfff])|(?<![\ud800-\udbff])[\udc00-\udfff]/g, '?')
const eolOf = (s, eol) => wellFormed(s).replace(/\r\n|\r|\n/g, eol)

const rich = {
    rust: `impl<T> Eq for Foo<T> {
    fn eq(&self, o: &T) -> bool { /* ü */ let é = 1; match x { _ => 2 } }
}
trait Tr { fn m(x: u8, y: &str) { f(x, "日本"); } }
struct S { a: u8, b: u16 }
enum E { A, B(u8), C { x: i32 } }
mod m { fn g() { x; let } }
`,
    fall: `tokenizer {
  #[skip] whitespace r"\\s+"
  word r"[a-zа-я]+" // é
  comma ','
}
pub rule file { <list {word | pair}> }
rule list(item) { <rep {item ','}> 'é😀' }
pub rule pair { word comma word }
test r"a, b"
test r"日本 a"
`,
}

class Session {
    constructor(rng, lang, idx) {
        this.rng = rng
        this.lang = lang
        this.ext = lang === 'fall' ? 'fall' : 'rs'
        this.host = activate(lang, undefined)
        this.docs = []
        this.objects = new Map()
        this.refreshed = new Set()
        this.host.providers.content[0][1].onDidChange((uri) => this.refreshed.add(uri.toString()))
        this.editors = []
        this.painted = new Map()
        this.texts = backend.plain({ do: 'texts', lang, seed: SEED * 1000003 + idx, n: 3 })
        this.frags = backend.plain({ do: 'insertions', lang, seed: SEED * 1000003 + idx, n: 30 })
            .concat(['é', '𝒳', '日本', '"ü"', '// 😀\n', 'fn é() {}\n', 'rule x { y }\n', ' ', '\n', ''])
        this.n = 0
    }
    get api() { return this.host.api }
    log(s) { journal.push(s) }

    open() {
        const eol = this.rng.chance(1, 6) ? '\r\n' : '\n'
        let text = eolOf((this.rng.chance(1, 2) ? rich[this.lang] : '') + this.texts[this.docs.length % this.texts.length], eol)
        if (this.rng.chance(1, 2) && text.length < 3000) {
            // characters of several bytes ahead of what matters
            text = this.rng.pick(['// é😀 ü' + eol, '/* 日本 */ ', '// 𝒳' + eol + eol]) + text
        }
        const doc = new TextDocument(`/ws/f${this.docs.length}.${this.rng.chance(1, 15) ? this.rng.pick(['txt', 'x' + this.ext]) : this.ext}`, text)
        doc.known = doc.fileName.endsWith('.' + this.ext)
        this.docs.push(doc)
        const ed = { document: doc, selections: [], setDecorations: (type, ranges) => { this.painted.set(type.n, ranges) } }
        Object.defineProperty(ed, 'selection', { get() { return ed.selections[0] }, set(s) { ed.selections = [s] } })
        ed.edit = (f) => {
            const edits = []
            f({
                replace: (r, t) => edits.push({ range: r instanceof editor.Position ? new Range(r, r) : r, newText: t }),
                insert: (p, t) => edits.push({ range: new Range(p, p), newText: t }), delete: (r) => edits.push({ range: r, newText: '' })
            })
            this.pending = edits
            return Promise.resolve(true)
        }
        this.editors.push(ed)
        this.log(`open ${doc.fileName} ${JSON.stringify(text)}`)
        // (an extension may be activated after documents were opened)
        if (this.rng.chance(2, 3)) this.host.ev.openDoc.fire(doc)
        this.activateEditor(ed)
    }
    activateEditor(ed) {
        this.log(`active ${ed ? ed.document.fileName : 'none'}`)
        this.api.window.activeTextEditor = ed
        this.painted.clear()
        this.host.ev.changeActive.fire(ed)
        this.afterUpdate(ed)
    }

    /// Contents of the active document are on display after every change.
    afterUpdate(ed) {
        if (!ed || !ed.document.known) return
        const doc = ed.document
        this.text(doc)
        const lib = this.oracle(doc, { q: 'highlight' })
        if (lib !== undefined) {
            const want = {}
            for (const [r, tag] of lib) {
                const n = this.tag(tag)
                if (n) (want[n] = want[n] || []).push(show(rangeOf(doc, r)))
            }
            const got = {}
            for (const [n, ranges] of this.painted) if (ranges.length) got[n] = ranges.map(show)
            same('highlighting', JSON.stringify(Object.entries(got).sort()), JSON.stringify(Object.entries(want).sort()))
        }
        if (this.lang === 'fall') {
            const lib = this.oracle(doc, { q: 'diagnostics' })
            if (lib !== undefined) {
                const got = (this.host.collections[0].map.get(doc.uri.toString()) || []).map((d) => `${show(d.range)} ${d.severity} ${d.message}`)
                const want = lib.map((d) => `${show(rangeOf(doc, d.range))} ${d.severity === 'Error' ? 0 : 1} ${d.message}`)
                same('diagnostics', got.join('\n'), want.join('\n'))
                same('documents with diagnostics', String([...this.host.collections[0].map.keys()]), doc.uri.toString())
                if (want.length) count('diagnostics shown', want.length)
            }
        }
    }
    tag(t) {
        // the decorations are created in the order background, error, comment, ...
        const names = ['background', 'error', 'comment', 'string', 'keyword', 'function', 'parameter', 'builtin', 'text', 'attribute', 'literal']
        const i = names.indexOf(t)
        return i < 0 ? 0 : i + 1
    }
    /// The answer of the library itself, for the file behind the document where it is known, else for a fresh one.
    oracle(doc, q) {
        const obj = this.objects.get(doc)
        const res = backend.ask(Object.assign({ do: 'oracle', lang: this.lang, text: doc.text }, obj === undefined ? {} : { obj }, q))
        if ('ok' in res) return res.ok
        count('not judged: the library has no answer')
        throw new Broken()
    }
    /// The native file that stands for the document has its text.
    text(doc) {
        touched = null
        this.objects.delete(doc)
        if (this.symbols().provideDocumentSymbols(doc) == null) throw new Stop('no symbols for a document of the language', doc.fileName)
        if (touched === null) return
        const t = backend.ask({ do: 'text', obj: touched })
        if (!('ok' in t)) throw new Stop('no file behind a document', JSON.stringify(t))
        if (t.ok !== doc.text) throw new Stop('the native file has another text than the document', `--- native ---\n${JSON.stringify(t.ok)}\n--- document ---\n${JSON.stringify(doc.text)}`)
        count('native texts compared')
        this.objects.set(doc, touched)
    }
    symbols() { return this.host.providers.symbols[0][1] }

    change(ed, edits, what) {
        const doc = ed.document
        // the editor sends the changes of one event from the last to the first
        const list = edits.map((e, i) => ({ s: doc.offsetAt(e.range.start), e: doc.offsetAt(e.range.end), r: e.range, t: eolOf(e.newText, doc.eol), i }))
        list.sort((a, b) => b.s - a.s || b.i - a.i)
        const contentChanges = list.map((x) => ({ range: x.r, rangeOffset: x.s, rangeLength: x.e - x.s, text: x.t }))
        doc.set(applyEdits(doc, edits.map((e) => ({ range: e.range, newText: eolOf(e.newText, doc.eol) })), what))
        doc.version++
        this.changed = true
        this.log(`change ${doc.fileName} ${JSON.stringify(list.map((x) => [x.s, x.e, x.t]))}`)
        count(`change events with ${Math.min(contentChanges.length, 2)}${contentChanges.length > 1 ? ' or more' : ''} changes`)
        this.refreshed.clear()
        this.host.ev.changeDoc.fire({ document: doc, contentChanges })
        if (doc.known) same('virtual documents to show anew', [...this.refreshed].sort().join(), `fall-${this.ext}://metrics,fall-${this.ext}://syntaxtree`)
        const active = this.api.window.activeTextEditor
        this.afterUpdate(active)
        if (doc.known) this.text(doc)
    }

    randomChange() {
        const rng = this.rng
        const ed = rng.pick(this.editors)
        const doc = ed.document
        const n = rng.pick([1, 1, 1, 1, 1, 2, 3, 0])
        const cuts = []
        const near = offset(rng, doc.text)
        for (let i = 0; i < 2 * n; i++) {
            let o = rng.chance(1, 2) ? Math.max(0, Math.min(doc.text.length, near + rng.below(21) - 10)) : offset(rng, doc.text)
            while (pairHalf(doc.text, o) || (o > 0 && doc.text[o - 1] === '\r' && doc.text[o] === '\n')) o--
            cuts.push(o)
        }
        cuts.sort((a, b) => a - b)
        const edits = []
        for (let i = 0; i < 2 * n; i += 2) {
            let [s, e] = [cuts[i], cuts[i + 1]]
            if (e - s > 60 && rng.chance(9, 10)) e = s
            if (i > 0 && cuts[i - 1] === s) continue
            let t = rng.pick(this.frags)
            if (rng.chance(1, 4) && t.length) t = t.substring(0, 1 + rng.below(t.length))
            if (doc.text.length > 5000) t = ''
            edits.push({ range: new Range(doc.positionAt(s), doc.positionAt(e)), newText: wellFormed(t) })
        }
        this.change(ed, edits, 'a change')
    }

    selection(doc) {
        let [a, b] = [offset(this.rng, doc.text), offset(this.rng, doc.text)]
        if (this.rng.chance(1, 2)) b = a
        else if (this.rng.chance(1, 2)) {
            b = Math.min(doc.text.length, a + this.rng.below(12))
            while (pairHalf(doc.text, b) || (b > 0 && doc.text[b - 1] === '\r' && doc.text[b] === '\n')) b--
            if (b < a) b = a
        }
        return new Selection(doc.positionAt(Math.min(a, b)), doc.positionAt(Math.max(a, b)))
    }
    byteRange(doc, r) { return [bytes(doc.text, doc.offsetAt(r.start)), bytes(doc.text, doc.offsetAt(r.end))] }

    query() {
        const rng = this.rng
        const ed = this.api.window.activeTextEditor
        if (!ed) return
        const doc = ed.document
        const kinds = ['extend', 'symbols', 'actions', 'tree', 'metrics'].concat(this.lang === 'fall'
            ? ['format', 'definition', 'references', 'test', 'apply', 'apply'] : ['crumbs', 'space', 'expand', 'apply', 'apply'])
        const kind = rng.pick(kinds)
        count('asked: ' + kind)
        report.evaluations++
        this.asked = true
        const provider = (k, i = 0) => this.host.providers[k][i][1]
        if (doc.known) this.text(doc)
        switch (kind) {
            case 'extend': {
                ed.selections = rng.chance(1, 4) ? [this.selection(doc), this.selection(doc)] : [this.selection(doc)]
                for (let i = 0; i < 1 + rng.below(12); i++) {
                    const before = ed.selections
                    this.log(`extend ${before.map(show)}`)
                    this.host.commands[`fall-${this.lang}.semanticSelection`]()
                    if (!doc.known) { same('selections', ed.selections.map(show).join(), before.map(show).join()); return }
                    const want = before.map((s) => {
                        const r = this.oracle(doc, { q: 'extendSelection', range: this.byteRange(doc, s) })
                        if (r == null) count('selections that cannot be extended')
                        return show(r == null ? s : rangeOf(doc, r))
                    })
                    same('extended selections', ed.selections.map(show).join(), want.join(), before.map(show).join())
                }
                return
            }
            case 'symbols': {
                const got = provider('symbols').provideDocumentSymbols(doc)
                if (!doc.known) { same('symbols of another language', String(got), 'null'); return }
                const want = this.oracle(doc, { q: 'structure' })
                same('symbols', got.map((s) => `${s.name} ${show(s.range)}`).join('\n'), want.map((s) => `${s.name} ${show(rangeOf(doc, s.range))}`).join('\n'))
                return
            }
            case 'actions': {
                const sel = this.selection(doc)
                const got = provider('actions').provideCodeActions(doc, new Range(sel.start, sel.end), {})
                if (!doc.known) { same('actions of another language', String(got), 'undefined'); return }
                const want = this.oracle(doc, { q: 'contextActions', range: this.byteRange(doc, sel) })
                same('actions', got.map((a) => a.title).join(), want.join(), show(sel))
                for (const a of got) {
                    same('arguments of actions', `${a.command} ${show(a.arguments[0])} ${a.arguments[1]}`, `fall-${this.ext}.applyContextAction ${show(sel)} ${a.title}`)
                }
                return
            }
            case 'apply': {
                if (!doc.known) return
                for (let i = 0; i < 12; i++) {
                    const sel = i < 6 ? this.at(doc) : this.selection(doc)
                    const got = provider('actions').provideCodeActions(doc, new Range(sel.start, sel.end), {})
                    if (!got.length) continue
                    const a = rng.pick(got)
                    this.log(`apply ${a.title} at ${show(sel)}`)
                    const want = this.oracle(doc, { q: 'applyContextAction', range: this.byteRange(doc, sel), id: a.title })
                    this.pending = null
                    this.host.commands[a.command](...a.arguments)
                    same('an action that leads to edits', String(this.pending !== null), String(want !== null))
                    if (want === null) return
                    const after = applyEdits(doc, this.pending, a.title)
                    same('the text after an action', after, want, `${a.title} ${show(sel)}`)
                    count('applied: ' + a.title)
                    this.change(ed, this.pending, a.title)
                    return
                }
                return
            }
            case 'tree': {
                const p = provider('content')
                const uri = this.api.Uri.parse(`fall-${this.ext}://syntaxtree`)
                const got = p.provideTextDocumentContent(uri)
                if (!doc.known) return
                same('the syntax tree document', got, this.oracle(doc, { q: 'syntaxTree' }))
                return
            }
            case 'metrics': {
                const got = provider('content').provideTextDocumentContent(this.api.Uri.parse(`fall-${this.ext}://metrics`))
                if (doc.known) same('metrics with the work of the parser', String(/parsing/.test(got)), 'true', got)
                return
            }
            case 'format': {
                const got = provider('formatting').provideDocumentFormattingEdits(doc, {})
                if (!doc.known) { same('edits for another language', String(got.length), '0'); return }
                const want = this.oracle(doc, { q: 'reformat' })
                same('the formatted text', applyEdits(doc, got, 'formatting'), want)
                if (want !== doc.text) { count('formatted'); this.change(ed, got, 'formatting') }
                return
            }
            case 'definition': case 'references': {
                if (!doc.known) return
                const o = this.name(doc)
                const p = doc.positionAt(o)
                if (kind === 'definition') {
                    const got = provider('definition').provideDefinition(doc, p)
                    const want = this.oracle(doc, { q: 'resolveReference', at: bytes(doc.text, o) })
                    same('the definition', got == null ? 'none' : `${got.uri} ${show(got.range)}`, want == null ? 'none' : `${doc.uri} ${show(rangeOf(doc, want))}`, String(o))
                    if (want) count('definitions found')
                } else {
                    const got = provider('references').provideReferences(doc, p)
                    const want = this.oracle(doc, { q: 'findUsages', at: bytes(doc.text, o) })
                    same('the references', got.map((l) => `${l.uri} ${show(l.range)}`).join(), want.map((r) => `${doc.uri} ${show(rangeOf(doc, r))}`).join(), String(o))
                    if (want.length) count('references found', want.length)
                }
                return
            }
            case 'test': {
                if (!doc.known) return
                const o = this.name(doc)
                const p = doc.positionAt(o)
                const got = provider('actions', 1).provideCodeActions(doc, new Range(p, rng.chance(1, 2) ? p : doc.positionAt(Math.max(o, offset(rng, doc.text)))), {})
                const want = this.oracle(doc, { q: 'testAtOffset', at: bytes(doc.text, o) })
                same('the test to render', got == null ? 'null' : String(got[0].arguments[0]), String(want), String(o))
                if (want != null) count('tests found')
                return
            }
            case 'crumbs': {
                const m = [...doc.text.matchAll(/[{,;] *|fn \w+/g)]
                let o = offset(rng, doc.text)
                if (m.length && rng.chance(3, 4)) { const x = rng.pick(m); o = x.index + 1 + rng.below(x[0].length) }
                ed.selections = [new Selection(doc.positionAt(rng.chance(1, 2) ? o : offset(rng, doc.text)), doc.positionAt(o))]
                this.host.status[0].text = '?'
                this.host.ev.changeSelection.fire({ textEditor: ed, selections: ed.selections })
                if (!doc.known) { same('crumbs of another language', this.host.status[0].text, '?'); return }
                const want = this.oracle(doc, { q: 'breadcrumbs', at: bytes(doc.text, o) })
                same('breadcrumbs', this.host.status[0].text, want.join(' $(chevron-right) '), String(o))
                if (want.length > 0) count('breadcrumbs shown')
                if (want.length > 1) count('nested breadcrumbs')
                return
            }
            case 'space': case 'expand': {
                const ch = kind === 'space' ? ' ' : '$'
                let o
                const m = [...doc.text.matchAll(kind === 'space' ? /[{;] *|\blet\b/g : /[{;] *|\b[a-z]{1,3}\b/g)]
                if (m.length && rng.chance(2, 3)) { const x = rng.pick(m); o = x.index + x[0].length } else o = offset(rng, doc.text)
                if (doc.known && rng.chance(1, 2)) {
                    const p = doc.positionAt(o)
                    const typed = (kind === 'space' ? rng.pick(['', 'let', ' let', ' = ']) : rng.pick(['x.pd', ' é.pd', 'f(1).pd', 'pd', ''])) + ch
                    this.change(ed, [{ range: new Range(p, p), newText: typed }], 'typing')
                    o = Math.min(doc.text.length, o + (rng.chance(2, 3) ? typed.length : 1 + rng.below(6)))
                    while (pairHalf(doc.text, o) || (o > 0 && doc.text[o - 1] === '\r' && doc.text[o] === '\n')) o--
                }
                const p = doc.positionAt(o)
                const got = provider('onType').provideOnTypeFormattingEdits(doc, p, ch, {})
                if (!doc.known) { same('typing in another language', String(got), 'undefined'); return }
                const lib = this.oracle(doc, { q: kind === 'space' ? 'afterSpaceTyped' : 'expand', at: bytes(doc.text, o) })
                const want = lib == null ? null : kind === 'space' ? doc.text.substring(0, o) + lib + doc.text.substring(o) : lib
                same('typing assists', got == null ? 'null' : applyEdits(doc, got, 'typing'), String(want), `${kind} at ${o}`)
                if (want != null) { count('typing assists that edit'); this.change(ed, got, 'typing') }
                return
            }
        }
    }
    /// A place where an action may be on offer: at a separator, or a word.
    at(doc) {
        const m = [...doc.text.matchAll(/[,|]|\b(struct|enum|fn|use)\b/g)]
        if (!m.length) return this.selection(doc)
        const x = this.rng.pick(m)
        const e = x.index + this.rng.below(x[0].length + 1)
        return new Selection(doc.positionAt(x.index), doc.positionAt(this.rng.chance(1, 2) ? x.index : e))
    }
    name(doc) {
        const kinds = [/[a-z_]+|test/g, /\btest\b/g, /<[a-z_]+/g, /[a-z_]+(?= *[}|*?])/g]
        let m = [...doc.text.matchAll(this.rng.pick(kinds))]
        if (!m.length) m = [...doc.text.matchAll(kinds[0])]
        if (!m.length || this.rng.chance(1, 5)) return offset(this.rng, doc.text)
        const x = this.rng.pick(m)
        return x.index + this.rng.below(x[0].length + 1)
    }

    step() {
        const r = this.rng.below(20)
        if (this.docs.length === 0 || (r === 0 && this.docs.length < 3)) return this.open()
        if (r === 1) return this.activateEditor(this.rng.chance(1, 6) ? undefined : this.rng.pick(this.editors))
        if (r === 2) {
            const ed = this.rng.pick(this.editors)
            const old = ed.document
            this.log(`close ${old.fileName}`)
            this.host.ev.closeDoc.fire(old)
            this.objects.delete(old)
            // it may be another text when it comes back
            const text = this.rng.chance(1, 2) ? old.text : eolOf(this.rng.pick(this.texts), old.eol)
            const doc = new TextDocument(old.fileName, text)
            doc.known = old.known
            this.docs[this.docs.indexOf(old)] = doc
            ed.document = doc
            ed.selections = []
            this.log(`open ${doc.fileName} ${JSON.stringify(text)}`)
            this.host.ev.openDoc.fire(doc)
            this.afterUpdate(this.api.window.activeTextEditor)
            if (doc.known) this.text(doc)
            return
        }
        if (r === 3) { this.host.ev.saveDoc.fire(this.rng.pick(this.editors).document); return }
        if (r < 10) return this.randomChange()
        return this.query()
    }
}

function oneCase(idx) {
    const rng = new Rng(mix(SEED) ^ mix(idx * 2 + 1))
    const lang = rng.chance(1, 2) ? 'fall' : 'rust'
    journal = [lang]
    try {
        backend.plain({ do: 'reset' })
        const s = new Session(rng, lang, idx)
        const n = 4 + rng.below(20)
        for (let i = 0; i < n; i++) s.step()
        if (s.asked && s.changed) report.distinct.add(idx)
        count('sessions of ' + lang)
        count('steps', n)
        if (s.docs.some((d) => /[^\x00-\x7f]/.test(d.text))) count('sessions with characters of several bytes')
        if (report.samples.length < 4) report.samples.push(journal.slice(0, 6).join('\n').slice(0, 800))
    } catch (e) {
        if (e instanceof Broken) { count('sessions ended by the library'); return }
        // an exception of the extension's own code is what a user would get to see as a failing command
        const sig = e instanceof Stop ? e.sig : `exception: ${e.message}`
        if (report.violations.length < 40) report.violations.push({ case: idx, sig, detail: `${e instanceof Stop ? e.detail : e.stack}\n--- history ---\n${journal.join('\n')}` })
        if (sig === 'the native process died') finish()
    }
}

/// Any edit of a text becomes a list of editor edits that do the same, and the other way round.
function anyEdit(idx) {
    journal = []
    const lang = native('any')
    try {
        backend.plain({ do: 'reset' })
        for (let i = 0; i < 20; i++) {
            const up = backend.plain({ do: 'putUp', seed: SEED * 1000003 + idx * 20 + i })
            journal = [JSON.stringify(up)]
            report.evaluations++
            const file = lang.parse(up.text)
            const apply = (edits) => applyEdits(
                { text: Buffer.from(up.text).toString('latin1'), offsetAt: (x) => x },
                edits.map((e) => ({ range: { start: e.delete[0], end: e.delete[1] }, newText: Buffer.from(e.insert).toString('latin1') })), 'an edit')
            const got = lang.reformat(file)
            same('the text after an edit of the library', Buffer.from(apply(got), 'latin1').toString(), up.want, JSON.stringify(got))
            if (got.length > 1) count('edits of the library with several parts')
            if (got.length && got[got.length - 1].delete[1] === Buffer.byteLength(up.text)) count('edits of the library at the end of the text')
            for (const list of [got, up.ops]) {
                const file2 = lang.edit(file, list)
                same('the text after an edit of the editor', backend.plain({ do: 'text', obj: file2.$obj }), up.want, JSON.stringify(list))
            }
        }
    } catch (e) {
        if (e instanceof Broken) { count('edits without an answer of the library'); return }
        if (report.violations.length < 40) report.violations.push({ case: idx, sig: e.sig || `exception: ${e.message}`, detail: `${e.detail || e.stack}\n--- edit ---\n${journal.join('\n')}` })
    }
}

/// Symbols of the workspace: names, files and places of the index, as they are.
function workspaceSymbols() {
    const root = path.join(WORK, 'ws')
    fs.mkdirSync(root)
    const texts = backend.plain({ do: 'texts', lang: 'rust', seed: SEED, n: 6 })
    texts.forEach((t, i) => fs.writeFileSync(path.join(root, `f${i}.rs`), t + `\nstruct Foo${i}; /* é😀 日本 */ fn foo${i}() {}\nmod m { /* ü */ enum Bar${i} {} }\n`))
    const queries = ['', '#', 'foo', '#foo', 'bar', 'f3', '#zzz', '#foo1']
    const want = backend.plain({ do: 'index', root, queries })
    const host = activate('rust', [{ uri: editor.Uri.file(root) }])
    const p = host.providers.workspaceSymbols[0][0]
    const flat = (xs) => JSON.stringify(xs.sort())
    journal = ['workspace symbols of ' + root]
    try {
        for (let q = 0; q < queries.length; q++) {
            const w = want[q].map(([f, s]) => `${f} ${s.name} ${s.lc_range[0].line}:${s.lc_range[0].col}-${s.lc_range[1].line}:${s.lc_range[1].col}`)
            let got
            for (let i = 0; i < 100; i++) {
                got = p.provideWorkspaceSymbols(queries[q]).map((s) => `${s.uri.fsPath} ${s.name} ${show(s.range)}`)
                if (flat(got) === flat(w)) break
                Atomics.wait(new Int32Array(new SharedArrayBuffer(4)), 0, 0, 100)
            }
            report.evaluations++
            if (w.length) count('workspace symbols', w.length)
            if (w.length < 30) same('workspace symbols', flat(got), flat(w), queries[q])
        }
    } catch (e) {
        report.violations.push({ case: -1, sig: e.sig || e.message, detail: `${e.detail || e.stack}\n${journal.join('\n')}` })
    }
}

function finish() {
    report.counters['native calls and questions'] = backend.calls
    report.distinct = [...report.distinct]
    fs.writeFileSync(opt.out, JSON.stringify(report))
    try { backend.child.kill('SIGKILL') } catch (e) { }
    process.exit(0)
}

// the extensions log to the console
console.log = () => { }
require('util').log = () => { }
compile()
const t0 = Date.now()
if (opt.case !== undefined && +opt.case < 0) workspaceSymbols()
else if (opt.case !== undefined) { oneCase(+opt.case); anyEdit(+opt.case) }
else {
    if (WORKER === 0) workspaceSymbols()
    for (let idx = WORKER; idx < CASES; idx += WORKERS) {
        if (Date.now() - t0 > SECS * 1000) break
        oneCase(idx)
        if (idx % 5 === 0) anyEdit(idx)
    }
}
finish()
