// As much of the DOM as jQuery 3 and the admin's tree widget use. Selectors are left to jQuery's own engine.
"use strict";
const { decodeHTML } = (() => {
    try { return require("/opt/veriftools/node/node_modules/entities"); } catch (e) { return {}; }
})();
const NAMED = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\u00a0", hellip: "…", rsaquo: "›", lsaquo: "‹",
    laquo: "«", raquo: "»", times: "×", copy: "©", middot: "·", uarr: "↑", darr: "↓" };
const decode = decodeHTML || (s => s.replace(/&(#x[0-9a-f]+|#\d+|\w+);/gi, (m, e) =>
    e[0] === "#" ? String.fromCodePoint(e[1] === "x" || e[1] === "X" ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10))
        : (e in NAMED ? NAMED[e] : m)));
const VOID = new Set(["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"]);
const RAW = new Set(["script", "style"]), RCDATA = new Set(["textarea", "title"]);

class EventTarget_ {
    constructor() { this._listeners = {}; }
    addEventListener(type, fn, options) {
        if (options && options.once) { const once = fn; fn = e => { this.removeEventListener(type, fn); once.call(this, e); }; }
        (this._listeners[type] = this._listeners[type] || []).push(fn);
    }
    removeEventListener(type, fn) { this._listeners[type] = (this._listeners[type] || []).filter(f => f !== fn); }
    dispatchEvent(event) {
        event.target = this;
        for (let cur = this; cur && !event._stopped; cur = cur.parentNode || (cur.nodeType === 9 ? cur.defaultView : null)) {
            event.currentTarget = cur;
            for (const fn of (cur._listeners[event.type] || []).slice()) (fn.handleEvent ? fn.handleEvent(event) : fn.call(cur, event));
        }
        return !event.defaultPrevented;
    }
}
class Event_ {
    constructor(type, props) {
        Object.assign(this, props);
        this.type = type; this.bubbles = true; this.cancelable = true; this.defaultPrevented = false; this.timeStamp = 1;
    }
    preventDefault() { this.defaultPrevented = true; }
    stopPropagation() { this._stopped = true; }
    stopImmediatePropagation() { this._stopped = true; }
}

class Node extends EventTarget_ {
    constructor(doc, type, name) {
        super();
        this.ownerDocument = doc; this.nodeType = type; this.nodeName = name; this.childNodes = []; this.parentNode = null;
    }
    get firstChild() { return this.childNodes[0] || null; }
    get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
    get parentElement() { return this.parentNode && this.parentNode.nodeType === 1 ? this.parentNode : null; }
    _sib(n) {
        if (!this.parentNode) return null;
        const s = this.parentNode.childNodes;
        return s[s.indexOf(this) + n] || null;
    }
    get nextSibling() { return this._sib(1); }
    get previousSibling() { return this._sib(-1); }
    get nextElementSibling() { let n = this.nextSibling; while (n && n.nodeType !== 1) n = n.nextSibling; return n; }
    get children() { return this.childNodes.filter(n => n.nodeType === 1); }
    hasChildNodes() { return this.childNodes.length > 0; }
    removeChild(c) {
        const i = this.childNodes.indexOf(c);
        if (i < 0) throw new Error("NotFoundError");
        this.childNodes.splice(i, 1); c.parentNode = null;
        return c;
    }
    remove() { if (this.parentNode) this.parentNode.removeChild(this); }
    appendChild(c) { return this.insertBefore(c, null); }
    insertBefore(c, ref) {
        if (c.nodeType === 11) { for (const k of c.childNodes.slice()) this.insertBefore(k, ref); return c; }
        if (c === ref) ref = c.nextSibling;
        for (let a = this; a; a = a.parentNode) if (a === c) throw new Error("HierarchyRequestError");
        if (c.parentNode) c.parentNode.removeChild(c);
        const i = ref ? this.childNodes.indexOf(ref) : this.childNodes.length;
        if (i < 0) throw new Error("NotFoundError");
        this.childNodes.splice(i, 0, c); c.parentNode = this;
        return c;
    }
    replaceChild(c, old) { this.insertBefore(c, old); this.removeChild(old); return old; }
    get textContent() { return this.nodeType === 3 || this.nodeType === 8 ? this.nodeValue : this.childNodes.filter(n => n.nodeType !== 8).map(n => n.textContent).join(""); }
    set textContent(v) {
        if (this.nodeType === 3 || this.nodeType === 8) { this.nodeValue = v; return; }
        for (const c of this.childNodes) c.parentNode = null;
        this.childNodes = [];
        if (v !== "") this.appendChild(this._doc().createTextNode(String(v)));
    }
    _doc() { return this.nodeType === 9 ? this : this.ownerDocument; }
    getRootNode() { let n = this; while (n.parentNode) n = n.parentNode; return n; }
    contains(o) { for (; o; o = o.parentNode) if (o === this) return true; return false; }
    compareDocumentPosition(o) {
        if (o === this) return 0;
        const path = n => { const p = []; for (; n; n = n.parentNode) p.unshift(n); return p; };
        const a = path(this), b = path(o);
        if (a[0] !== b[0]) return 1 | 32 | 4;
        let i = 0;
        while (i < a.length && i < b.length && a[i] === b[i]) i++;
        if (i === a.length) return 16 | 4;
        if (i === b.length) return 8 | 2;
        const s = a[i - 1].childNodes;
        return s.indexOf(a[i]) < s.indexOf(b[i]) ? 4 : 2;
    }
    *_all() { for (const c of this.childNodes) if (c.nodeType === 1) { yield c; yield* c._all(); } }
    getElementsByTagName(t) { t = t.toUpperCase(); return [...this._all()].filter(e => t === "*" || e.nodeName === t); }
    getElementsByClassName(c) {
        const want = c.split(/\s+/).filter(Boolean);
        return [...this._all()].filter(e => { const have = (e.getAttribute("class") || "").split(/\s+/); return want.every(w => have.includes(w)); });
    }
    querySelectorAll(sel) { const f = compileSelector(String(sel)); return [...this._all()].filter(e => f(e, this)); }
    querySelector(sel) { return this.querySelectorAll(sel)[0] || null; }
    _nodes(args) { return args.map(a => typeof a === "object" ? a : this._doc().createTextNode(a)); }
    append(...a) { for (const n of this._nodes(a)) this.appendChild(n); }
    prepend(...a) { const ref = this.firstChild; for (const n of this._nodes(a)) this.insertBefore(n, ref); }
    replaceChildren(...a) { this.textContent = ""; this.append(...a); }
    before(...a) { for (const n of this._nodes(a)) this.parentNode.insertBefore(n, this); }
    after(...a) { const ref = this.nextSibling; for (const n of this._nodes(a)) this.parentNode.insertBefore(n, ref); }
    replaceWith(...a) { this.after(...a); this.remove(); }
    get previousElementSibling() { let n = this.previousSibling; while (n && n.nodeType !== 1) n = n.previousSibling; return n; }
    get firstElementChild() { return this.children[0] || null; }
    get lastElementChild() { const c = this.children; return c[c.length - 1] || null; }
    get childElementCount() { return this.children.length; }
    get isConnected() { return this.getRootNode().nodeType === 9; }
    cloneNode(deep) {
        const d = this.ownerDocument, c = this.nodeType === 1 ? new Element(d, this.nodeName)
            : this.nodeType === 3 ? d.createTextNode(this.nodeValue) : this.nodeType === 8 ? d.createComment(this.nodeValue) : d.createDocumentFragment();
        if (this.nodeType === 1) { for (const a of this.attributes) c.setAttribute(a.name, a.value); Object.assign(c.style, this.style); }
        if (deep) for (const k of this.childNodes) c.appendChild(k.cloneNode(true));
        return c;
    }
    set innerHTML(html) { this.textContent = ""; parse(this._doc(), this, String(html)); }
    get innerHTML() { return this.childNodes.map(n => n.outerHTML || n.nodeValue || "").join(""); }
}

// Native selectors: lists of compounds (tag, #id, .class, [attr], :not, :scope, :first-child, :last-child) with any combinator.
const camel = n => n.replace(/-(\w)/g, (m, c) => c.toUpperCase());
function compileSelector(text) {
    const syntax = () => { const e = new Error(`'${text}' is not a supported selector`); e.name = "SyntaxError"; return e; };
    let i = 0;
    const ident = /(?:[\w-]|[^\0-\x7f]|\\[0-9a-fA-F]{1,6}\s?|\\[^\n0-9a-fA-F])+/y, attr = /\[\s*([\w-]+)\s*(?:([~|^$*]?=)\s*(?:"((?:[^"\\\n]|\\[^])*)"|'((?:[^'\\\n]|\\[^])*)'|((?:[\w-]|[^\0-\x7f]|\\[0-9a-fA-F]{1,6}\s?|\\[^\n0-9a-fA-F])+))\s*)?\]/y;
    const take = re => { re.lastIndex = i; const m = re.exec(text); if (!m) throw syntax(); i = re.lastIndex; return m; };
    const unescape_ = s => s.replace(/\\(?:([0-9a-fA-F]{1,6})\s?|\n|([^]))/g, (m, h, c) => h ? String.fromCodePoint(parseInt(h, 16)) : c || "");
    const compound = () => {
        const tests = [];
        for (;;) {
            const c = text[i];
            if (c === "*") { i++; tests.push(() => true); }
            else if (c === "#") { i++; const v = unescape_(take(ident)[0]); tests.push(e => e.getAttribute("id") === v); }
            else if (c === ".") { i++; const v = unescape_(take(ident)[0]); tests.push(e => (e.getAttribute("class") || "").split(/\s+/).includes(v)); }
            else if (c === "[") {
                const m = take(attr), op = m[2], v = m[3] ?? m[4] ?? m[5];
                const want = v === undefined ? v : unescape_(v);
                tests.push(e => {
                    const h = e.getAttribute(m[1]);
                    if (h === null) return false;
                    switch (op) {
                        case undefined: return true;
                        case "=": return h === want;
                        case "~=": return h.split(/\s+/).includes(want);
                        case "|=": return h === want || h.startsWith(want + "-");
                        case "^=": return want !== "" && h.startsWith(want);
                        case "$=": return want !== "" && h.endsWith(want);
                        default: return want !== "" && h.includes(want);
                    }
                });
            } else if (text.startsWith(":not(", i)) {
                i += 5; const inner = list(")"); i++; tests.push((e, r) => !inner(e, r));
            } else if (text.startsWith(":is(", i)) {
                i += 4; const inner = list(")"); i++; tests.push(inner);
            } else if (text.startsWith(":scope", i)) { i += 6; tests.push((e, r) => e === r); }
            else if (text.startsWith(":first-child", i)) { i += 12; tests.push(e => e.parentNode && e.parentNode.children[0] === e); }
            else if (text.startsWith(":last-child", i)) { i += 11; tests.push(e => !e.nextElementSibling); }
            else if (c && /[\w-]/.test(c)) { const v = take(ident)[0].toUpperCase(); tests.push(e => e.nodeName === v); }
            else break;
        }
        if (!tests.length) throw syntax();
        return (e, r) => tests.every(t => t(e, r));
    };
    const complex = () => {
        const parts = [compound()];
        for (;;) {
            const m = /\s*([>+~])\s*|\s+(?=[^\s,)])/y; m.lastIndex = i;
            const k = m.exec(text);
            if (!k) break;
            i = m.lastIndex; parts.push(k[1] || " ", compound());
        }
        const at = (e, k, r) => {
            if (!parts[k](e, r)) return false;
            if (!k) return true;
            const prev = x => x && x.nodeType === 1 && at(x, k - 2, r);
            switch (parts[k - 1]) {
                case ">": return prev(e.parentNode);
                case "+": return prev(e.previousElementSibling);
                case "~": for (let x = e.previousElementSibling; x; x = x.previousElementSibling) if (prev(x)) return true; return false;
                default: for (let x = e.parentNode; x; x = x.parentNode) if (prev(x)) return true; return false;
            }
        };
        return (e, r) => at(e, parts.length - 1, r);
    };
    const list = end => {
        const any = [];
        for (;;) {
            while (/\s/.test(text[i] || "")) i++;
            any.push(complex());
            while (/\s/.test(text[i] || "")) i++;
            if (text[i] !== ",") break;
            i++;
        }
        if (text[i] !== end) throw syntax();
        return (e, r) => any.some(f => f(e, r));
    };
    return list(undefined);
}

const ROW = 20;
class Element extends Node {
    constructor(doc, name) {
        super(doc, 1, name.toUpperCase());
        this.tagName = this.nodeName; this.namespaceURI = "http://www.w3.org/1999/xhtml"; this.attributes = [];
        this.style = { setProperty(n, v) { this[camel(n)] = v; }, removeProperty(n) { delete this[camel(n)]; }, getPropertyValue(n) { return this[camel(n)] || ""; } };
        for (const k of ["setProperty", "removeProperty", "getPropertyValue"]) Object.defineProperty(this.style, k, { enumerable: false });
    }
    get localName() { return this.nodeName.toLowerCase(); }
    get outerHTML() { return `<${this.localName}${this.attributes.map(a => ` ${a.name}="${a.value}"`).join("")}>${this.innerHTML}</${this.localName}>`; }
    getAttribute(n) { n = n.toLowerCase(); const a = this.attributes.find(x => x.name === n); return a ? a.value : null; }
    getAttributeNode(n) { n = n.toLowerCase(); const a = this.attributes.find(x => x.name === n); return a ? { ...a, specified: true } : null; }
    hasAttribute(n) { return this.getAttribute(n) !== null; }
    setAttribute(n, v) {
        n = n.toLowerCase(); v = String(v);
        const a = this.attributes.find(x => x.name === n);
        if (a) a.value = v; else this.attributes.push({ name: n, value: v });
    }
    removeAttribute(n) { this.attributes = this.attributes.filter(a => a.name !== n.toLowerCase()); }
    toggleAttribute(n, force) { const on = force === undefined ? !this.hasAttribute(n) : force; if (on) this.setAttribute(n, this.getAttribute(n) || ""); else this.removeAttribute(n); return on; }
    getAttributeNames() { return this.attributes.map(a => a.name); }
    matches(sel) { return compileSelector(String(sel))(this, this); }
    closest(sel) { const f = compileSelector(String(sel)); for (let e = this; e && e.nodeType === 1; e = e.parentNode) if (f(e, this)) return e; return null; }
    insertAdjacentElement(where, el) { ({ beforebegin: () => this.before(el), afterbegin: () => this.prepend(el), beforeend: () => this.append(el), afterend: () => this.after(el) })[where.toLowerCase()](); return el; }
    insertAdjacentHTML(where, html) { const f = this._doc().createDocumentFragment(); parse(this._doc(), f, String(html)); this.insertAdjacentElement(where, f); }
    get classList() {
        const el = this, get = () => el.className.split(/\s+/).filter(Boolean), set = l => { el.className = l.join(" "); };
        return {
            contains: c => get().includes(c), add: (...c) => set([...new Set([...get(), ...c])]), remove: (...c) => set(get().filter(x => !c.includes(x))),
            toggle(c, force) { const on = force === undefined ? !get().includes(c) : Boolean(force); if (on) this.add(c); else this.remove(c); return on; },
            replace(a, b) { if (!get().includes(a)) return false; set(get().map(x => x === a ? b : x)); return true; },
            get length() { return get().length; }, item: i => get()[i] || null, [Symbol.iterator]: () => get()[Symbol.iterator](), forEach: f => get().forEach(f), toString: () => el.className,
        };
    }
    get hidden() { return this.hasAttribute("hidden"); } set hidden(v) { this.toggleAttribute("hidden", Boolean(v)); }
    get offsetTop() { return this.getBoundingClientRect().top; } get offsetLeft() { return 10; } get clientHeight() { return ROW; } get clientWidth() { return 300; }
    get cells() { return this.children.filter(c => c.nodeName === "TD" || c.nodeName === "TH"); }
    get draggable() { return this.getAttribute("draggable") === "true"; } set draggable(v) { this.setAttribute("draggable", v); }
    get id() { return this.getAttribute("id") || ""; } set id(v) { this.setAttribute("id", v); }
    get className() { return this.getAttribute("class") || ""; } set className(v) { this.setAttribute("class", v); }
    get href() { return this.getAttribute("href"); } set href(v) { this.setAttribute("href", v); }
    get protocol() { return "http:"; } get host() { return "testserver"; }
    get type() { return this.getAttribute("type") || (this.nodeName === "INPUT" ? "text" : undefined); } set type(v) { this.setAttribute("type", v); }
    get value() { return this.getAttribute("value") || ""; } set value(v) { this.setAttribute("value", v); }
    get checked() { return this.hasAttribute("checked"); } set checked(v) { if (v) this.setAttribute("checked", ""); else this.removeAttribute("checked"); }
    get defaultValue() { return this.nodeName === "TEXTAREA" ? this.textContent : this.value; }
    get disabled() { return this.hasAttribute("disabled"); }
    get selected() { return this.hasAttribute("selected"); }
    get dataset() {
        const el = this, dash = k => "data-" + String(k).replace(/[A-Z]/g, c => "-" + c.toLowerCase());
        return new Proxy({}, {
            get: (t, k) => typeof k === "string" && el.hasAttribute(dash(k)) ? el.getAttribute(dash(k)) : undefined,
            set: (t, k, v) => { el.setAttribute(dash(k), v); return true; },
            has: (t, k) => el.hasAttribute(dash(k)), deleteProperty: (t, k) => { el.removeAttribute(dash(k)); return true; },
            ownKeys: () => el.attributes.filter(a => a.name.startsWith("data-")).map(a => camel(a.name.slice(5))),
            getOwnPropertyDescriptor: (t, k) => ({ value: el.getAttribute(dash(k)), enumerable: true, configurable: true, writable: true }),
        });
    }
    get offsetHeight() { return ROW; } get offsetWidth() { return 300; }
    getClientRects() { return this._visible() ? [this.getBoundingClientRect()] : []; }
    // Rows of tables lie below one another, the hidden ones take no room; everything else is at the top.
    getBoundingClientRect() {
        let top = 0;
        for (const r of this._doc().getElementsByTagName("tr")) { if (r === this) break; if (r._visible()) top += ROW; }
        if (this.nodeName !== "TR") top = 0;
        return { top, left: 10, width: 300, height: ROW, bottom: top + ROW, right: 310 };
    }
    _visible() {
        let n = this;
        for (; n && n.nodeType === 1; n = n.parentNode) if (n.style.display === "none" || n.hasAttribute("hidden")) return false;
        return Boolean(n && n.nodeType === 9);
    }
    focus() {} blur() {} click() { this.dispatchEvent(new Event_("click")); }
}

class Document extends Node {
    constructor() {
        super(null, 9, "#document");
        this.readyState = "loading"; this.location = null; this.defaultView = null; this.compatMode = "CSS1Compat";
        this.documentElement = this.createElement("html");
        this.appendChild(this.documentElement);
        this.documentElement.appendChild(this.createElement("head"));
        this.documentElement.appendChild(this.createElement("body"));
        this.implementation = { createHTMLDocument: () => new Document() };
    }
    get head() { return this.getElementsByTagName("head")[0]; }
    get body() { return this.getElementsByTagName("body")[0]; }
    createElement(n) { return new Element(this, n); }
    createTextNode(v) { const t = new Node(this, 3, "#text"); t.nodeValue = String(v); return t; }
    createComment(v) { const t = new Node(this, 8, "#comment"); t.nodeValue = String(v); return t; }
    createDocumentFragment() { return new Node(this, 11, "#document-fragment"); }
    getElementById(id) { for (const e of this._all()) if (e.getAttribute("id") === id) return e; return null; }
    getElementsByName(n) { return [...this._all()].filter(e => e.getAttribute("name") === n); }
    get activeElement() { return this.body; }
    hasFocus() { return true; }
}

function parse(doc, root, html) {
    const stack = [root];
    const top = () => stack[stack.length - 1];
    let i = 0;
    const text = s => { if (s) top().appendChild(doc.createTextNode(s)); };
    while (i < html.length) {
        const lt = html.indexOf("<", i);
        if (lt < 0) { text(decode(html.slice(i))); break; }
        if (lt > i) text(decode(html.slice(i, lt)));
        i = lt;
        if (html.startsWith("<!--", i)) {
            const e = html.indexOf("-->", i + 4);
            top().appendChild(doc.createComment(html.slice(i + 4, e < 0 ? html.length : e)));
            i = e < 0 ? html.length : e + 3;
            continue;
        }
        if (html[i + 1] === "!" || html[i + 1] === "?") { i = html.indexOf(">", i) + 1 || html.length; continue; }
        const close = /^<\/([a-zA-Z][^\s>\/]*)[^>]*>/.exec(html.slice(i, i + 200));
        if (close) {
            const name = close[1].toUpperCase();
            for (let k = stack.length - 1; k > 0; k--) if (stack[k].nodeName === name) { stack.length = k; break; }
            i += close[0].length;
            continue;
        }
        const open = /^<([a-zA-Z][^\s>\/]*)/.exec(html.slice(i, i + 100));
        if (!open) { text("<"); i++; continue; }
        const name = open[1].toLowerCase(), el = doc.createElement(name);
        i += open[0].length;
        const attr = /\s*([^\s=>\/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?|\s*\//y;
        for (;;) {
            attr.lastIndex = i;
            const m = attr.exec(html);
            if (!m || !m[0].length) break;
            if (m[1] && !el.hasAttribute(m[1])) el.setAttribute(m[1], decode(m[2] ?? m[3] ?? m[4] ?? ""));
            i = attr.lastIndex;
        }
        i = html.indexOf(">", i) + 1 || html.length;
        const st = /display:\s*none/.test(el.getAttribute("style") || "");
        if (st) el.style.display = "none";
        top().appendChild(el);
        if (RAW.has(name) || RCDATA.has(name)) {
            const m = new RegExp(`</${name}[\\s>/]`, "i").exec(html.slice(i));
            const body = m ? html.slice(i, i + m.index) : html.slice(i);
            if (body) el.appendChild(doc.createTextNode(RAW.has(name) ? body : decode(body)));
            i = m ? html.indexOf(">", i + m.index) + 1 : html.length;
        } else if (!VOID.has(name)) {
            stack.push(el);
        }
    }
}

function parseDocument(html) {
    const doc = new Document();
    const head = /<head[^>]*>([\s\S]*?)<\/head>/i.exec(html), body = /<body[^>]*>([\s\S]*)<\/body>/i.exec(html);
    if (head) parse(doc, doc.head, head[1]);
    parse(doc, doc.body, body ? body[1] : html);
    return doc;
}
module.exports = { parseDocument, Event_, EventTarget_ };
