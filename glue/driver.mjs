// Runs the application's own scripts (xdvdfs-web/src/**/*.js) against stand-ins for the browser and for tauri.
// Reads a case as a line of JSON, answers with what happened, as a line of JSON.
import { createInterface } from 'node:readline';

const SRC = process.env.XV_WEB_SRC || '/repo/xdvdfs-web/src';
let n = 0;
const load = (f) => import(`file://${SRC}/${f}?${n++}`);
// every reaction to what has happened so far has run
const settle = () => new Promise((r) => setImmediate(r));
const plain = (e) => (e instanceof Error ? `uncaught ${e.name}: ${e.message}` : e);
let rejections = 0;
process.on('unhandledRejection', () => rejections++);

/// Commands of the desktop program: listeners, calls and events resolved in the order the case's script picks.
async function jobs(c) {
    const trace = [];
    const waiting = []; // [description, run]
    const listeners = new Map();
    let ids = 0;
    const listen = (name, handler) => {
        const id = ids++;
        trace.push({ t: 'listen', id, name });
        return new Promise((ok) => {
            waiting.push(() => {
                listeners.set(id, { name, handler });
                trace.push({ t: 'listening', id });
                ok(() => {
                    listeners.delete(id);
                    trace.push({ t: 'unlisten', id });
                });
            });
        });
    };
    const invoke = (cmd, args) => {
        trace.push({ t: 'invoke', cmd, args: args ?? null });
        const job = c.jobs.findIndex((j) => j.src === args?.sourcePath);
        return new Promise((ok, fail) => {
            waiting.push(() => {
                const o = c.jobs[job]?.outcome ?? { ok: null };
                trace.push({ t: 'answer', job });
                if ('err' in o) fail(o.err);
                else ok(o.ok);
            });
        });
    };
    const urls = [];
    globalThis.window = {
        __TAURI__: {
            invoke,
            tauri: { invoke },
            shell: { open: (u) => { urls.push(u); return Promise.resolve(); } },
            window: { appWindow: { listen } },
            event: { listen },
        },
    };
    const m = await load('ops/tauri.js');
    const emit = (name, payload) => {
        trace.push({ t: 'emit', name, payload });
        for (const l of [...listeners.values()]) if (l.name === name) l.handler({ event: name, windowLabel: 'main', id: 7, payload });
    };
    let next = 0;
    let events = 0;
    let running = 0;
    const start = () => {
        const i = next++;
        const j = c.jobs[i];
        trace.push({ t: 'start', job: i });
        running++;
        const cb = (which) => (payload) => trace.push({ t: 'callback', job: i, which, payload: payload === undefined ? '<undefined>' : payload });
        const args = [j.src, j.dest, cb(0)];
        if (j.kind === 'compress_image') args.push(cb(1));
        const done = (r) => { running--; trace.push({ t: 'done', job: i, ...r }); };
        try {
            m[j.kind](...args).then((v) => done({ ok: v === undefined ? null : v }), (e) => done({ err: plain(e) }));
        } catch (e) {
            done({ err: plain(e) });
        }
    };
    const mayStart = () => next < c.jobs.length && (c.overlap || running === 0);
    for (const s of c.script) {
        const acts = waiting.map((w, i) => () => waiting.splice(i, 1)[0]());
        if (mayStart()) acts.push(start);
        // events of every kind
        acts.push(() => emit(['progress_callback', 'compress_callback', 'other'][s % 7 % 3], { n: events++, s }));
        acts.push(acts[acts.length - 1]);
        acts[s % acts.length]();
        await settle();
    }
    for (let k = 0; k < 1000 && (waiting.length || mayStart()); k++) {
        if (waiting.length) waiting.shift()();
        else start();
        await settle();
    }
    for (const e of ['progress_callback', 'compress_callback', 'other']) emit(e, { n: events++, s: 0 });
    await settle();
    for (const u of c.urls) m.open_url(u);
    await settle();
    return { trace, left: listeners.size, urls };
}

/// Pickers of the browser or of tauri.
async function pickers(c) {
    const shown = []; // what was asked for
    const waiting = [];
    const called = [];
    const ask = (what) => (opts) => {
        const i = shown.length;
        const p = c.picks[i];
        shown.push({ what, opts: opts === undefined ? null : opts, suggested: !!opts && 'suggestedName' in opts, path: !!opts && 'defaultPath' in opts });
        return new Promise((ok, fail) => {
            waiting.push(() => {
                if (c.browser) {
                    if (p?.cancel) fail(new DOMException('The user aborted a request.', 'AbortError'));
                    else ok(what === 'open' ? [p?.value] : p?.value);
                } else ok(p?.cancel ? null : p?.value);
            });
        });
    };
    globalThis.window = c.browser
        ? { showOpenFilePicker: ask('open'), showSaveFilePicker: ask('save'), showDirectoryPicker: ask('directory') }
        : { __TAURI__: { dialog: { open: ask('open'), save: ask('save') } } };
    const m = await load(c.browser ? 'picker/browser.js' : 'picker/tauri.js');
    let next = 0;
    const start = () => {
        const i = next++;
        const p = c.picks[i];
        const cb = (v) => called.push({ i, value: v === undefined ? '<undefined>' : v });
        const f = { open: 'showOpenFilePicker', save: 'showSaveFilePicker', directory: 'showDirectoryPicker' }[p.which];
        if (p.which === 'save') m[f](cb, p.suggested === null ? undefined : p.suggested);
        else m[f](cb);
    };
    for (const s of c.script) {
        const acts = waiting.map((w, i) => () => waiting.splice(i, 1)[0]());
        if (next < c.picks.length) acts.push(start);
        if (acts.length) acts[s % acts.length]();
        await settle();
    }
    for (let k = 0; k < 1000 && (waiting.length || next < c.picks.length); k++) {
        if (waiting.length) waiting.shift()();
        else start();
        await settle();
    }
    return { shown, called };
}

async function available(c) {
    const f = () => {};
    const all = ['showOpenFilePicker', 'showSaveFilePicker', 'showDirectoryPicker'];
    globalThis.window = Object.fromEntries(all.filter((_, i) => c.mask & (1 << i)).map((k) => [k, f]));
    const m = await load('picker/browser.js');
    return { available: m.isFilePickerAvailable() };
}

for await (const l of createInterface({ input: process.stdin })) {
    let r;
    try {
        const c = JSON.parse(l);
        r = await { jobs, pickers, available }[c.what](c);
    } catch (e) {
        r = { error: String(e?.stack ?? e) };
    }
    process.stdout.write(JSON.stringify(r) + '\n');
}
