// A page with the admin's tree widget on it. Commands come as JSON lines on stdin; each is answered with the page's state.
// Requests are not sent: they are listed, and answered by a command, in whatever order.
"use strict";
const fs = require("fs"), vm = require("vm"), readline = require("readline");
const { parseDocument, Event_, EventTarget_ } = require("./minidom.js");
let page = null;

class Page {
    constructor({ html, search, jquery, init, script, catalogs }) {
        this.doc = parseDocument(html);
        this.requests = []; this.timers = []; this.reloads = 0; this.errors = []; this.next = 1;
        const page = this, doc = this.doc;
        const win = new EventTarget_();
        const location = { href: "http://testserver/admin/x/" + search, search, protocol: "http:", host: "testserver", reload() { page.reloads++; } };
        class XMLHttpRequest {
            constructor() { this.withCredentials = false; this.headers = {}; this.responseType = ""; }
            open(method, url) { this.method = method; this.url = url; }
            setRequestHeader(k, v) { this.headers[k] = v; }
            getAllResponseHeaders() { return Object.entries(this.answer.headers).map(([k, v]) => `${k}: ${v}\r\n`).join(""); }
            abort() {}
            send(body) { this.key = page.next++; this.body = body || ""; page.requests.push(this); }
        }
        Object.assign(win, {
            document: doc, location, navigator: { userAgent: "monitor" }, XMLHttpRequest, pageXOffset: 0, pageYOffset: 0,
            setTimeout: fn => { page.timers.push(fn); return page.timers.length; }, clearTimeout() {}, console,
            requestAnimationFrame: fn => { page.timers.push(fn); }, URLSearchParams, URL,
            getComputedStyle: el => {
                const base = { display: el.style.display || (el.nodeName === "TR" ? "table-row" : "block"), height: "20px", width: "300px", boxSizing: "content-box",
                    borderTopWidth: "0px", borderBottomWidth: "0px", position: el.style.position || "static", top: "1%", marginLeft: "0px" };
                base.getPropertyValue = n => base[n.replace(/-(\w)/g, (m, c) => c.toUpperCase())] || "";
                return base;
            },
            // Answered like the others, by the same fields.
            fetch: (url, o = {}) => new Promise((resolve, reject) => {
                const x = { method: (o.method || "GET").toUpperCase(), url: String(url), headers: {}, body: o.body === undefined || o.body === null ? "" : String(o.body), key: page.next++ };
                const h = o.headers || {};
                for (const [k, v] of (typeof h.entries === "function" ? h.entries() : Object.entries(h))) x.headers[k] = v;
                x.onload = () => resolve({
                    ok: x.status >= 200 && x.status < 300, status: x.status, headers: { get: k => x.answer.headers[k.toLowerCase()] || null },
                    json: async () => JSON.parse(x.responseText), text: async () => x.responseText,
                });
                page.requests.push(x);
            }),
            FormData: URLSearchParams, Headers: typeof Headers === "undefined" ? Map : Headers, queueMicrotask, structuredClone,
            CSS: { escape: s => String(s).replace(/[\x01-\x1f\x7f]|^-?\d|^-$|[^\w\x80-\uffff-]/g, c => /^-?\d$/.test(c) ? (c[1] ? "-\\" + "3" + c[1] : "\\3" + c) + " " : c < " " || c === "\x7f" ? "\\" + c.charCodeAt(0).toString(16) + " " : "\\" + c) }, HTMLElement: Object, Event: Event_, CustomEvent: Event_,
        });
        win.window = win; win.self = win; win.top = win; doc.defaultView = win; doc.location = location; win._listeners = {};
        this.win = win;
        vm.createContext(win);
        const run = (file) => vm.runInContext(fs.readFileSync(file, "utf8"), win, { filename: file });
        run(jquery); run(init);
        for (const text of catalogs || []) this.guard(() => vm.runInContext(text, win, { filename: "catalog" }));
        const el = doc.getElementsByTagName("script").find(s => /treebeard-admin\.js$/.test(s.getAttribute("src") || ""));
        this.scripted = Boolean(el);
        doc.currentScript = el || null;
        if (el) this.guard(() => run(script));
        doc.currentScript = null;
        doc.readyState = "complete";
        this.fire(doc, "DOMContentLoaded");
        this.settle();
    }
    guard(fn) { try { return fn(); } catch (e) { this.errors.push(String(e && e.stack || e).split("\n").slice(0, 3).join(" | ")); } }
    settle() { while (this.timers.length) this.guard(this.timers.shift()); }
    fire(el, type, props) { const e = new Event_(type, props || {}); this.guard(() => el.dispatchEvent(e)); this.settle(); return e; }
    rows() {
        const t = this.doc.getElementById("result_list");
        return t ? t.getElementsByTagName("tbody").flatMap(b => b.children.filter(r => r.nodeName === "TR")) : [];
    }
    row(id) { return this.rows().find(r => r.getAttribute("data-node-id") === id); }
    state() {
        const rows = this.rows().map(r => {
            const cls = c => r.getElementsByClassName(c);
            const toggle = cls("treebeard-collapse");
            return {
                id: r.getAttribute("data-node-id"), visible: r._visible(), spacers: cls("spacer").length,
                toggles: toggle.length, open: toggle.length ? toggle[0].className.split(/\s+/).filter(c => /expanded|collapsed|loading/.test(c)).sort().join(" ") : "",
                handles: cls("drag-handler").length, draggable: cls("drag-handler").some(h => h.getAttribute("draggable") === "true"),
                first: r.children.filter(c => c.getElementsByClassName("drag-handler").length).map(c => r.children.indexOf(c)),
                text: r.textContent, marks: (r.getAttribute("class") || "").split(/\s+/).filter(c => /target-node|active-node/.test(c)).sort(),
                top: r.getBoundingClientRect().top,
            };
        });
        return {
            rows, errors: this.errors, reloads: this.reloads, scripted: this.scripted,
            tooltip: (this.doc.getElementById("drag-tooltip") || { textContent: null }).textContent,
            requests: this.requests.map(x => ({ key: x.key, method: x.method, url: x.url, body: x.body, headers: x.headers })),
        };
    }
    click(id) {
        const r = this.row(id), a = r && r.getElementsByClassName("treebeard-collapse")[0];
        if (!a) { this.errors.push("harness: no toggle " + id); return; }
        const e = this.fire(a, "click");
        if (!e.defaultPrevented) this.errors.push("the click follows the link");
    }
    handle(id) { return this.row(id).getElementsByClassName("drag-handler")[0]; }
    dragstart(id) { this.source = this.handle(id); this.fire(this.source, "dragstart", { dataTransfer: { setDragImage() {}, setData() {} } }); }
    dragenter(id) { const r = this.row(id); this.fire(r.getElementsByTagName("*")[0] || r, "dragenter", {}); }
    dragover(id, half) {
        const r = this.row(id), y = r.getBoundingClientRect().top + (half === "top" ? 4 : 15);
        const e = this.fire(r, "dragover", { pageY: y });
        this.accepts = e.defaultPrevented;
        this.fire(this.source, "drag", { pageY: 0 });
    }
    drop(id) { const r = this.row(id); if (this.accepts) this.fire(r, "drop", {}); }
    dragend() { this.fire(this.source, "dragend", {}); }
    respond({ key, status, body, headers }) {
        const x = this.requests.find(r => r.key === key);
        this.requests = this.requests.filter(r => r.key !== key);
        x.status = status; x.statusText = String(status); x.responseText = body; x.answer = { headers };
        x.readyState = 4;
        this.guard(() => x.onload && x.onload({ type: "load" }));
        this.settle();
    }
}

async function serve() {
    for await (const line of readline.createInterface({ input: process.stdin })) {
        const c = JSON.parse(line);
        let out;
        try {
            if (c.cmd === "load") page = new Page(c);
            else page[c.cmd](...(c.args || []));
            for (let i = 0; i < 3; i++) { await new Promise(setImmediate); page.settle(); }
            out = page.state();
        } catch (e) { out = { harness: String(e.stack) }; }
        process.stdout.write(JSON.stringify(out) + "\n");
    }
}
process.on("unhandledRejection", e => { if (page) page.errors.push(String(e && e.stack || e).split("\n").slice(0, 3).join(" | ")); });
serve();
