// Runs the editor client's TypeScript sources (transpiled from /repo at start) against a stand-in for the editor's
// API; one JSON request per line on stdin, one JSON answer per line on stdout.
const Module = require('module'), path = require('path'), fs = require('fs');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const SRC = (process.env.VERIF_REPO || '/repo') + '/clients/vscode-hlasmplugin/src/';
class Position {
    constructor(l, c) { if (!(l >= 0) || !(c >= 0)) throw new Error('illegal argument: negative position'); this.line = l; this.character = c; }
    isBefore(o) { return this.line < o.line || this.line === o.line && this.character < o.character; }
    isAfter(o) { return o.isBefore(this); }
    isEqual(o) { return this.line === o.line && this.character === o.character; }
    isBeforeOrEqual(o) { return !o.isBefore(this); }
    isAfterOrEqual(o) { return !this.isBefore(o); }
    compareTo(o) { return this.isBefore(o) ? -1 : o.isBefore(this) ? 1 : 0; }
    translate(dl = 0, dc = 0) { if (typeof dl === 'object') { dc = dl.characterDelta || 0; dl = dl.lineDelta || 0; } return new Position(this.line + dl, this.character + dc); }
    with(l = this.line, c = this.character) { if (typeof l === 'object') { c = l.character === undefined ? this.character : l.character; l = l.line === undefined ? this.line : l.line; } return new Position(l, c); }
}
class Range {
    constructor(a, b, c, d) {
        if (typeof a === 'number') { a = new Position(a, b); b = new Position(c, d); }
        this.start = b.isBefore(a) ? b : a; this.end = b.isBefore(a) ? a : b;
    }
    get isEmpty() { return this.start.isEqual(this.end); }
    get isSingleLine() { return this.start.line === this.end.line; }
    contains(p) { return p.start ? this.contains(p.start) && this.contains(p.end) : !p.isBefore(this.start) && !this.end.isBefore(p); }
    isEqual(o) { return this.start.isEqual(o.start) && this.end.isEqual(o.end); }
    with(s = this.start, e = this.end) { return new Range(s, e); }
}
class Selection extends Range {
    constructor(a, b, c, d) { super(a, b, c, d); this.anchor = typeof a === 'number' ? new Position(a, b) : a; this.active = typeof a === 'number' ? new Position(c, d) : b; }
    get isReversed() { return this.active.isBefore(this.anchor); }
}
let CONFIG = {}, SETLANG = [];
const anything = () => {
    const f = function () { };
    return new Proxy(f, { get: (t, k) => k === 'prototype' ? f.prototype : k === Symbol.toPrimitive ? () => '' : k === 'then' ? undefined : (t[k] !== undefined && k !== 'name' && k !== 'length' ? t[k] : (t[k] = anything())), apply: () => anything(), construct: () => ({}) });
};
const vscode = new Proxy({
    Position, Range, Selection,
    workspace: {
        workspaceFolders: undefined,
        getConfiguration: s => ({ get: (o, d) => o in CONFIG ? CONFIG[o] : d, ...CONFIG })
    },
    languages: { setTextDocumentLanguage: (d, l) => { SETLANG.push(l); d.languageId = l; return Promise.resolve(d); } }
}, { get: (t, k) => k in t ? t[k] : (typeof k === 'string' ? (t[k] = anything()) : undefined) });
const load = Module._load;
Module._load = function (req, parent, main) {
    if (req === 'vscode') return vscode;
    if (req.startsWith('.') || req.startsWith('/') || Module.builtinModules.includes(req.replace(/^node:/, ''))) return load(req, parent, main);
    return anything();
};
require.extensions['.ts'] = (m, f) => m._compile(ts.transpileModule(fs.readFileSync(f, 'utf8'), { compilerOptions: { module: 'commonjs', target: 'es2020', esModuleInterop: false } }).outputText, f);

class Doc {
    constructor(lines) { this.lines = lines; this.lineCount = lines.length; this.eol = 2; }
    lineAt(l) { if (typeof l !== 'number') l = l.line; if (!(l >= 0 && l < this.lines.length)) throw new Error('Illegal value for `line`'); const t = this.lines[l]; return { lineNumber: l, text: t, range: new Range(l, 0, l, t.length), rangeIncludingLineBreak: new Range(l, 0, l + 1, 0), isEmptyOrWhitespace: !t.trim(), firstNonWhitespaceCharacterIndex: t.search(/\S|$/) }; }
    getText(r) { const all = this.lines.join('\r\n'); return r ? all.slice(this.offsetAt(r.start), this.offsetAt(r.end)) : all; }
    validatePosition(p) { const l = Math.min(p.line, this.lines.length - 1); const c = p.line > l ? this.lines[l].length : Math.min(p.character, this.lines[l].length); return l === p.line && c === p.character ? p : new Position(l, c); }
    validateRange(r) { return new Range(this.validatePosition(r.start), this.validatePosition(r.end)); }
    offsetAt(p) { p = this.validatePosition(p); let o = 0; for (let i = 0; i < p.line; ++i) o += this.lines[i].length + 2; return o + p.character; }
}
function edit(q) {
    const { CustomEditorCommands } = require(SRC + 'customEditorCommands.ts');
    const { ContinuationHandler } = require(SRC + 'continuationHandler.ts');
    const doc = new Doc(q.lines);
    const editor = { document: doc, selection: new Selection(...q.sel) };
    editor.selections = [editor.selection];
    const edits = [];
    const asRange = l => l.start ? new Range(l.start, l.end) : new Range(l, l);
    const e = { insert: (p, t) => edits.push([new Range(p, p), t]), delete: r => edits.push([asRange(r), '']), replace: (r, t) => edits.push([asRange(r), t]), setEndOfLine() { } };
    const c = new CustomEditorCommands(), h = new ContinuationHandler();
    switch (q.cmd) {
        case 'type': c.insertChars(editor, e, { text: q.text }, q.off); break;
        case 'cut': c.cut(editor, e, q.off); break;
        case 'left': c.deleteLeft(editor, e, q.off); break;
        case 'right': c.deleteRight(editor, e, q.off); break;
        case 'add': h.insertContinuation(editor, e, q.off, q.cc); break;
        case 'remove': h.removeContinuation(editor, e, q.off); break;
    }
    // the editor applies all edits to the document as it was; overlapping ones are refused
    const es = edits.map((x, i) => ({ r: x[0], t: x[1], i })).sort((a, b) => a.r.start.compareTo(b.r.start) || a.r.end.compareTo(b.r.end) || a.i - b.i);
    for (let i = 1; i < es.length; ++i) if (es[i].r.start.isBefore(es[i - 1].r.end)) throw new Error('Overlapping ranges are not allowed!');
    const text = doc.getText();
    let out = '', at = 0;
    for (const x of es) { const a = doc.offsetAt(x.r.start), b = doc.offsetAt(x.r.end); out += text.slice(at, a) + x.t; at = b; }
    out += text.slice(at);
    return { lines: out.split(/\r\n|\n|\r/) };
}
function lang(q) {
    const { ConfigurationsHandler } = require(SRC + 'configurationsHandler.ts');
    const { HLASMLanguageDetection } = require(SRC + 'hlasmLanguageDetection.ts');
    vscode.workspace.workspaceFolders = [{ uri: { fsPath: q.folder } }];
    const conf = new ConfigurationsHandler(), det = new HLASMLanguageDetection(conf);
    const out = [];
    for (const s of q.steps) {
        if (s.conf) {
            fs.mkdirSync(q.folder + '/.hlasmplugin', { recursive: true });
            fs.writeFileSync(q.folder + '/.hlasmplugin/pgm_conf.json', JSON.stringify(s.conf[0]));
            fs.writeFileSync(q.folder + '/.hlasmplugin/proc_grps.json', JSON.stringify(s.conf[1]));
            conf.updateWildcards(s.saved ? q.folder + '/.hlasmplugin/' + s.saved : undefined);
        }
        else {
            CONFIG = { useAutodetection: s.auto };
            SETLANG = [];
            const d = new Doc([s.text]);
            d.getText = () => s.text; d.uri = { fsPath: s.path, path: s.path }; d.fileName = s.path; d.languageId = s.lang;
            const r = det.setHlasmLanguage(d);
            out.push([r, SETLANG.slice()]);
        }
    }
    return { r: out };
}
const answer = s => process.stdout.write(JSON.stringify(s) + '\n');
let buf = '';
process.stdin.on('data', d => {
    buf += d;
    for (let i; (i = buf.indexOf('\n')) >= 0;) {
        const l = buf.slice(0, i); buf = buf.slice(i + 1);
        const q = JSON.parse(l);
        try { answer(q.op === 'lang' ? lang(q) : edit(q)); } catch (e) { answer({ exc: String(e && e.message || e) }); }
    }
});
