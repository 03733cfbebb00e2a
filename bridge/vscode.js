'use strict'
// A stand-in for the parts of the editor's API that the extensions use. Documents count UTF-16 code units, as the editor does.

class Position {
    constructor(line, character) { this.line = line; this.character = character }
}
class Range {
    constructor(a, b, c, d) {
        let start = a, end = b
        if (typeof a === 'number') { start = new Position(a, b); end = new Position(c, d) }
        if (start.line > end.line || (start.line === end.line && start.character > end.character)) { [start, end] = [end, start] }
        this.start = start
        this.end = end
    }
}
class Selection extends Range {
    constructor(anchor, active) { super(anchor, active); this.anchor = anchor; this.active = active }
}
class Uri {
    constructor(s) { this.s = s }
    toString() { return this.s }
    get fsPath() { return this.s.replace(/^file:\/\//, '') }
    static parse(s) { return new Uri(s) }
    static file(p) { return new Uri('file://' + p) }
}
class EventEmitter {
    constructor() { this.listeners = []; this.event = (f, self, disposables) => { this.listeners.push(self ? f.bind(self) : f); return { dispose() { } } } }
    fire(e) { for (const f of this.listeners.slice()) f(e) }
}
class TextEdit {
    constructor(range, newText) { this.range = range; this.newText = newText }
    static replace(range, text) { return new TextEdit(range, text) }
    static insert(position, text) { return new TextEdit(new Range(position, position), text) }
    static delete(range) { return new TextEdit(range, '') }
}
class Location { constructor(uri, range) { this.uri = uri; this.range = range } }
class Diagnostic { constructor(range, message, severity) { this.range = range; this.message = message; this.severity = severity } }
class SymbolInformation {
    constructor(name, kind, range, uri, container) { this.name = name; this.kind = kind; this.range = range; this.uri = uri }
}

class TextDocument {
    constructor(path, text) { this.fileName = path; this.uri = Uri.file(path); this.eol = text.includes('\r\n') ? '\r\n' : '\n'; this.version = 1; this.set(text) }
    set(text) {
        this.text = text
        this.starts = [0]
        for (let i = 0; i < text.length; i++) if (text[i] === '\n') this.starts.push(i + 1)
    }
    lineLength(line) {
        const start = this.starts[line]
        let end = line + 1 < this.starts.length ? this.starts[line + 1] - 1 : this.text.length
        if (end > start && line + 1 < this.starts.length && this.text[end - 1] === '\r') end--
        return end - start
    }
    offsetAt(p) {
        if (p.line < 0) return 0
        if (p.line >= this.starts.length) return this.text.length
        return this.starts[p.line] + Math.max(0, Math.min(p.character, this.lineLength(p.line)))
    }
    positionAt(offset) {
        offset = Math.floor(Math.max(0, Math.min(offset, this.text.length)))
        let lo = 0, hi = this.starts.length
        while (lo + 1 < hi) { const m = (lo + hi) >> 1; if (this.starts[m] <= offset) lo = m; else hi = m }
        return new Position(lo, Math.min(offset - this.starts[lo], this.lineLength(lo)))
    }
    getText(range) {
        if (range === undefined) return this.text
        return this.text.substring(this.offsetAt(range.start), this.offsetAt(range.end))
    }
    get lineCount() { return this.starts.length }
    lineAt(l) { const line = typeof l === 'number' ? l : l.line; return { text: this.text.substr(this.starts[line], this.lineLength(line)) } }
}

/// The editor's own API object; `host` is the other side, for the driver.
function create(folders) {
    const ev = {}
    const events = ['changeActive', 'changeSelection', 'changeDoc', 'openDoc', 'closeDoc', 'saveDoc']
    for (const e of events) ev[e] = new EventEmitter()
    const host = { ev, commands: {}, providers: {}, decorations: [], collections: [], status: [], opened: [] }
    const register = (kind) => (...args) => { (host.providers[kind] = host.providers[kind] || []).push(args); return { dispose() { } } }
    const api = {
        Position, Range, Selection, Uri, EventEmitter, TextEdit, Location, Diagnostic, SymbolInformation,
        SymbolKind: { Function: 11, Class: 4 }, DiagnosticSeverity: { Error: 0, Warning: 1, Information: 2, Hint: 3 },
        ViewColumn: { One: 1, Two: 2 }, StatusBarAlignment: { Left: 1, Right: 2 },
        window: {
            activeTextEditor: undefined,
            onDidChangeActiveTextEditor: ev.changeActive.event,
            onDidChangeTextEditorSelection: ev.changeSelection.event,
            createTextEditorDecorationType(o) { return { options: o, n: host.decorations.push(o) } },
            createStatusBarItem() { const s = { text: '', show() { }, hide() { } }; host.status.push(s); return s },
            showTextDocument(d) { return Promise.resolve(d) },
            showErrorMessage() { }, showInformationMessage() { },
        },
        workspace: {
            workspaceFolders: folders,
            onDidChangeTextDocument: ev.changeDoc.event,
            onDidOpenTextDocument: ev.openDoc.event,
            onDidCloseTextDocument: ev.closeDoc.event,
            onDidSaveTextDocument: ev.saveDoc.event,
            openTextDocument(uri) { host.opened.push(uri); return Promise.resolve({ uri }) },
            registerTextDocumentContentProvider: register('content'),
        },
        languages: {
            createDiagnosticCollection(name) {
                const c = { name, map: new Map(), clear() { c.map.clear() }, set(u, d) { c.map.set(u.toString(), d) } }
                host.collections.push(c)
                return c
            },
            registerCodeActionsProvider: register('actions'), registerDocumentSymbolProvider: register('symbols'),
            registerDocumentFormattingEditProvider: register('formatting'), registerReferenceProvider: register('references'),
            registerDefinitionProvider: register('definition'), registerWorkspaceSymbolProvider: register('workspaceSymbols'),
            registerOnTypeFormattingEditProvider: register('onType'),
        },
        commands: {
            registerCommand(name, f) { host.commands[name] = f; return { dispose() { } } },
            executeCommand(name, ...args) { return host.commands[name](...args) },
        },
    }
    host.api = api
    return host
}

module.exports = { create, Position, Range, Selection, Uri, TextDocument }
