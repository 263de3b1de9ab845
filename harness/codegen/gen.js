// Draws random Apex models and lets the repository's TinyGo visitors write the
// Go code of them: node gen.mjs OUT SEED COUNT types|stubs
import fs from "node:fs";
import path from "node:path";
import * as tinygo from "iota-tinygo";
import * as m from "./standin_model.js";
import { capitalize, operationArgsType } from "./standin_utils.js";
import { expandType, fieldName, methodName, returnPointer, setExpandStreamPattern } from "./standin_go.js";

const [out, seedArg, countArg, mode] = process.argv.slice(2);
const K = m.Kind;

function rng(seed) {
  let s = seed >>> 0;
  const next = () => {
    s = (s + 0x6d2b79f5) >>> 0;
    let t = Math.imul(s ^ (s >>> 15), 1 | s);
    t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t;
    return ((t ^ (t >>> 14)) >>> 0) / 4294967296;
  };
  return {
    n: (k) => Math.floor(next() * k),
    p: (x) => next() < x,
    pick: (a) => a[Math.floor(next() * a.length)],
  };
}

const prims = ["ID", "bool", "string", "datetime", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "bytes"];
const keys = ["string", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "bool", "ID"];
const aliasPrims = ["string", "bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "ID"];
const fieldNames = ["id", "url", "name", "userId", "homeUrl", "count", "value", "data", "o", "err", "field", "numFields",
  "item", "key", "ret", "request", "decoder", "encoder", "listSize", "mapSize", "nonNilItem", "type", "a", "b", "x9",
  "snake_case", "k", "v", "ctx", "payload"];

// describe turns a type into what the harness reads.
function describe(t) {
  switch (t.kind) {
    case K.Optional: return { k: "opt", t: describe(t.type) };
    case K.List: return { k: "list", t: describe(t.type) };
    case K.Map: return { k: "map", kt: describe(t.keyType), t: describe(t.valueType) };
    case K.Stream: return { k: "stream", t: describe(t.type) };
    case K.Void: return { k: "void" };
    case K.Alias: return { k: "alias", n: t.name, t: describe(t.type) };
    case K.Enum: return { k: "enum", n: t.name };
    case K.Type: return { k: "type", n: t.name };
    case K.Union: return { k: "union", n: t.name };
    default: return { k: "prim", n: t.name };
  }
}

function members(u) {
  return u.members.map((t) => ({ name: t.name, go: fieldName(undefined, t.name), type: describe(t) }));
}

function drawNames(r, n) {
  const s = new Set();
  while (s.size < n) s.add(r.p(0.6) ? r.pick(fieldNames) : "f" + r.n(100));
  // two names may not become one field of the struct
  const seen = new Set();
  return [...s].filter((x) => { const g = fieldName(undefined, x); return seen.has(g) ? false : seen.add(g); });
}

// The names a parameter cannot have: they are the generated functions' own.
const param = (x) => !["ctx", "err", "request", "payload", "type", "in"].includes(x);

function model(r, idx, pkg, config) {
  const ns = new m.Namespace(`m${idx}.v${r.n(3)}`);
  const tools = { named: [] };
  const prim = (l) => new m.Primitive(r.pick(l || prims));
  for (let i = 0, n = r.n(3); i < n; i++) {
    const values = [];
    let at = r.n(4) - 1;
    for (let j = 0, k = 1 + r.n(5); j < k; j++) {
      values.push(new m.EnumValue("v" + j, at));
      if (r.p(0.1)) at = Math.max(at, [127, 255, 32767, 65535, 8388607, 2147480000][r.n(6)] + r.n(3));
      at += 1 + r.n(r.p(0.2) ? 1000 : 3);
    }
    ns.enums["E" + i] = new m.Enum("E" + i, values);
  }
  for (let i = 0, n = r.n(4); i < n; i++) ns.aliases["A" + i] = new m.Alias("A" + i, prim(aliasPrims));
  config.aliases = {};
  if (r.p(0.5)) {
    ns.aliases.Ident = new m.Alias("Ident", new m.Primitive("string"));
    config.aliases.Ident = {
      type: "uuid.UUID", import: "github.com/nanobus/iota/go/types/uuid", parse: "uuid.Parse", format: "String",
    };
  }
  const nTypes = pkg != "svc" && r.p(0.08) ? 0 : 1 + r.n(4);
  for (let i = 0; i < nTypes; i++) ns.types["T" + i] = new m.Type("T" + i, []);
  for (const a of ["H0", "H1"]) {
    if (r.p(0.3)) {
      const t = !nTypes || r.p(0.5) ? new m.Primitive(r.pick(prims)) : r.pick(Object.values(ns.types));
      ns.aliases[a] = new m.Alias(a, r.p(0.5) ? new m.List(t) : new m.Map(prim(keys), t));
    }
  }
  const nUnions = nTypes ? r.n(3) : r.n(2) * r.n(3);
  for (let i = 0; i < nUnions; i++) ns.unions["U" + i] = new m.Union("U" + i, []);
  const all = (o) => Object.values(o);
  const leaf = () => {
    const l = [...all(ns.enums), ...all(ns.aliases).filter((a) => a.type.kind == K.Primitive)];
    return l.length && r.p(0.35) ? r.pick(l) : prim();
  };
  // below: only types of a smaller index may be held by value
  const element = (below) => {
    const named = below == undefined
      ? [...all(ns.types), ...all(ns.unions)]
      : [...all(ns.types).slice(0, below), ...(below == nTypes ? all(ns.unions) : [])];
    return named.length && r.p(0.3) ? r.pick(named) : leaf();
  };
  tools.field = (below) => {
    const container = (bare) => {
      const item = () => {
        const t = element();
        if (r.p(0.2) && !(t.kind == K.Primitive && t.name == "bytes")) return new m.Optional(t);
        return t;
      };
      const holders = all(ns.aliases).filter((a) => a.type.kind != K.Primitive);
      if (holders.length && bare && r.p(0.25)) return r.pick(holders);
      const list = r.p(0.5);
      // a list of maps or a map of lists
      const held = r.p(0.15) ? (list ? new m.Map(prim(keys), item()) : new m.List(item())) : item();
      return list ? new m.List(held) : new m.Map(prim(keys), held);
    };
    switch (r.n(8)) {
      case 0:
      case 1:
      case 2: return new m.Optional(element());
      case 3: return new m.Optional(container());
      case 4: return container(true);
      default: return element(below);
    }
  };
  tools.element = element;
  tools.leaf = leaf;
  tools.prim = prim;
  all(ns.types).forEach((t, i) => {
    const n = r.p(0.1) ? 0 : r.p(0.1) ? 17 + r.n(4) : 1 + r.n(7);
    t.fields = drawNames(r, n).map((x) => new m.Field(x, tools.field(i)));
  });
  all(ns.unions).forEach((u, i) => {
    const l = [...all(ns.types), ...all(ns.unions).slice(0, i), ...all(ns.enums),
      ...all(ns.aliases).filter((a) => a.type.kind == K.Primitive),
      new m.Primitive("string"), new m.Primitive("i64"), new m.Primitive("bool")];
    const s = new Set();
    for (let j = 0, n = 1 + r.n(4); j < n; j++) s.add(r.pick(l));
    u.members = u.types = [...s];
  });
  return { ns, tools };
}

function visit(name, ns, config) {
  const w = new m.Writer();
  new m.Context(config, ns).accept(new tinygo[name](w));
  return w.string();
}

function put(file, text) {
  fs.mkdirSync(path.dirname(path.join(out, file)), { recursive: true });
  fs.writeFileSync(path.join(out, file), text);
}

const names = (annotations) => annotations.map((a) => new m.Annotation(a));

function typesModel(r, idx) {
  const config = { package: "m" + idx };
  const { ns, tools } = model(r, idx, "m" + idx, config);
  const argsTypes = [];
  if (r.p(0.7)) {
    const ops = [];
    for (let i = 0, n = 1 + r.n(3); i < n; i++) {
      const params = drawNames(r, 1 + r.n(4)).filter(param).map((x) => new m.Parameter(x, tools.field(99)));
      const at = r.p(0.3) ? r.n(params.length + 1) : -1;
      const fields = params.map((p) => ({ name: p.name, go: fieldName(p, p.name), type: describe(p.type) }));
      if (at >= 0) params.splice(at, 0, new m.Parameter("in", new m.Stream(tools.leaf())));
      const op = new m.Operation("op" + i, params, at >= 0 ? new m.Stream(tools.leaf()) : m.VoidValue, false, []);
      ops.push(op);
      if (fields.length) argsTypes.push({ name: `Iface${capitalize(op.name)}Args`, kind: "args", fields });
    }
    ns.interfaces.Iface = new m.Interface("Iface", ops, names(["service"]));
  }
  const described = [
    ...Object.values(ns.types).map((t) => ({
      name: t.name, kind: "type",
      fields: t.fields.map((f) => ({ name: f.name, go: fieldName(f, f.name), type: describe(f.type) })),
    })),
    ...Object.values(ns.unions).map((u) => ({ name: u.name, kind: "union", fields: members(u) })),
    ...argsTypes,
  ];
  put(`m${idx}/msgpack.go`, visit("MsgPackVisitor", ns, config));
  put(`m${idx}/interfaces.go`, visit("InterfacesVisitor", ns, config));
  let glue = `package m${idx}\n\nimport (\n"github.com/nanobus/iota/go/internal/zzverif/cg/reg"\n` +
    `"github.com/nanobus/iota/go/msgpack"\n)\n\nfunc init() {\nreg.Types["m${idx}"] = map[string]func() msgpack.Codec{\n`;
  described.forEach((d) => glue += `"${d.name}": func() msgpack.Codec { return new(${d.name}) },\n`);
  glue += `}\n}\n`;
  put(`m${idx}/glue.go`, glue);
  return { name: "m" + idx, ns: ns.name, packages: ["m" + idx], types: described, enums: enums(ns) };
}

const enums = (ns) =>
  Object.fromEntries(Object.values(ns.enums).map((e) => [e.name, e.values.map((v) => v.index)]));

function stubsModel(r, idx) {
  const config = { package: "svc" };
  const { ns, tools } = model(r, idx, "svc", config);
  const byString = Object.values(ns.aliases).filter((a) => a.type.name == "string" && a.name != "Ident");
  const plain = prims.filter((p) => p != "ID");
  const objects = () => Object.values(ns.types);
  const enumsOf = () => Object.values(ns.enums);
  // what may be answered or stream out
  const answer = () => {
    const l = [() => new m.Primitive(r.pick(plain)), () => r.pick(objects())];
    if (enumsOf().length) l.push(() => r.pick(enumsOf()));
    if (byString.length) l.push(() => r.pick(byString));
    if (Object.values(ns.unions).length) l.push(() => r.pick(Object.values(ns.unions)));
    return r.pick(l)();
  };
  const argument = () => {
    for (;;) {
      const t = tools.field(99);
      if (t.kind != K.Type) return t;
    }
  };
  const operation = (name) => {
    const kind = r.pick(["rr", "rr", "rs", "rc"]);
    let params = [], unary = false;
    const way = r.n(5);
    if (way < 3) {
      params = drawNames(r, 1 + r.n(4)).filter(param)
        .map((x) => new m.Parameter(x, argument()));
    } else if (way == 3) {
      const l = [...objects()];
      unary = true;
      params = [new m.Parameter("value", enumsOf().length && r.p(0.3) ? r.pick(enumsOf()) : r.pick(l))];
    }
    let ret;
    if (kind == "rr") {
      ret = r.p(0.2) ? m.VoidValue : r.p(0.2) ? new m.List(r.pick(objects())) : answer();
    } else {
      ret = new m.Stream(answer());
    }
    if (kind == "rc") {
      params.splice(r.n(params.length + 1), 0, new m.Parameter("in", new m.Stream(answer())));
      if (!unary || true) {
        // the stream comes last, as the generated wrappers hand it over
        params = [...params.filter((p) => p.type.kind != K.Stream), params.find((p) => p.type.kind == K.Stream)];
      }
    }
    return { op: (annotations) => new m.Operation(name, params, ret, unary, names(annotations)), kind, params, unary, ret };
  };
  const ifaces = [];
  const opNames = ["get", "loadById", "list", "store", "find", "url", "watch", "x1", "doIt", "run"];
  for (let i = 0, n = 1 + r.n(3); i < n; i++) {
    const ops = [];
    const used = new Set();
    for (let j = 0, k = 1 + r.n(4); j < k; j++) {
      const name = r.pick(opNames);
      if (used.has(name)) continue;
      used.add(name);
      ops.push({ name, ...operation(name) });
    }
    ifaces.push({ name: "Iface" + i, ops });
  }
  const funcs = [];
  for (let i = 0, n = r.n(3); i < n; i++) funcs.push({ name: "fn" + i, ...operation("fn" + i) });

  const types = {};
  for (const [pkg, role] of [["svc", "service"], ["prov", "provider"]]) {
    const cfg = { ...config, package: pkg };
    ns.interfaces = {};
    ns.functions = {};
    ifaces.forEach((i) => {
      ns.interfaces[i.name] = new m.Interface(i.name, i.ops.map((o) => o.op([])), names([role]));
    });
    funcs.forEach((f) => ns.functions[f.name] = f.op(role == "provider" ? ["provider"] : []));
    put(`m${idx}/${pkg}/msgpack.go`, visit("MsgPackVisitor", ns, cfg));
    put(`m${idx}/${pkg}/interfaces.go`, visit("InterfacesVisitor", ns, cfg));
    if (pkg == "svc") put(`m${idx}/svc/export.go`, visit("ExportVisitor", ns, cfg));
    else put(`m${idx}/prov/providers.go`, visit("ProviderVisitor", ns, cfg));
    const tr = (n) => config.aliases[n] ? config.aliases[n].type : undefined;
    setExpandStreamPattern("flux.Flux[{{type}}]");
    const ex = (t) => expandType(t, undefined, true, tr);
    const par = (t) => returnPointer(t) + ex(t);
    const uses = (s) => s;
    let body = "";
    const desc = [];
    const entry = (owner, o) => {
      const stream = o.params.find((p) => p.type.kind == K.Stream);
      const plainParams = o.params.filter((p) => p.type.kind != K.Stream);
      const outType = o.ret.kind == K.Void ? "struct{}" : ex(o.ret.kind == K.Stream ? o.ret.type : o.ret);
      const pack = o.ret.kind == K.Stream ? "Flux" : "Mono";
      desc.push({
        iface: owner, op: o.name, kind: o.kind, unary: o.unary,
        params: plainParams.map((p) => describe(p.type)),
        input: stream ? describe(stream.type.type) : undefined,
        ret: describe(o.ret.kind == K.Stream ? o.ret.type : o.ret),
      });
      const key = `m${idx}.${owner}.${o.name}`;
      const method = methodName(undefined, o.name);
      const retType = o.ret.kind == K.Void ? "mono.Void" : `${pack.toLowerCase()}.${pack}[${outType}]`;
      if (pkg == "svc") {
        const sig = ["ctx context.Context", ...plainParams.map((p, i) => `p${i} ${par(p.type)}`)];
        if (stream) sig.push(`in flux.Flux[${ex(stream.type.type)}]`);
        const args = plainParams.map((_, i) => `p${i}`).join(", ");
        const call = `return reg.Serve${pack}[${outType}](ctx, "${key}", []any{${args}}, ${
          stream ? "reg.Collect(in)" : "nil"
        })`;
        body += `func ${owner ? `(s *impl${owner}) ${method}` : `impl${capitalize(o.name)}`}(${sig.join(", ")}) ${retType} {\n${call}\n}\n\n`;
      } else {
        const args = ["ctx", ...plainParams.map((p, i) => `reg.Arg[${par(p.type)}](a[${i}])`)];
        if (stream) args.push(`reg.Input[${ex(stream.type.type)}](in)`);
        const target = owner ? `New${owner}().${method}` : method;
        body += `func init() {\nreg.Calls["${key}"] = &reg.Call{\n` +
          `Args: []reflect.Type{${plainParams.map((p) => `reflect.TypeOf((*${par(p.type)})(nil)).Elem()`).join(", ")}},\n` +
          (stream ? `In: reflect.TypeOf((*${ex(stream.type.type)})(nil)).Elem(),\n` : "") +
          `Out: reflect.TypeOf((*${outType})(nil)).Elem(),\n` +
          `Do: func(ctx context.Context, a []any, in *reg.Feed) *reg.Outcome {\n` +
          `return reg.Run${pack}[${outType}](func() ${pack.toLowerCase()}.${pack}[${outType}] { return ${target}(${args.join(", ")}) })\n},\n}\n}\n\n`;
      }
    };
    ifaces.forEach((i) => {
      if (pkg == "svc") body += `type impl${i.name} struct{}\n\n`;
      i.ops.forEach((o) => entry(i.name, o));
    });
    funcs.forEach((f) => entry("", f));
    let reg = "";
    if (pkg == "svc") {
      ifaces.forEach((i) => reg += `Register${i.name}(&impl${i.name}{})\n`);
      funcs.forEach((f) => reg += `Register${capitalize(f.name)}(impl${capitalize(f.name)})\n`);
    } else {
      reg = `Initialize(reg.Caller)\n`;
    }
    body += `func init() {\n${reg}}\n`;
    const imports = ["context", "reflect", "time", "github.com/nanobus/iota/go/rx/mono", "github.com/nanobus/iota/go/rx/flux",
      "github.com/nanobus/iota/go/types/uuid", "github.com/nanobus/iota/go/internal/zzverif/cg/reg"]
      .filter((i) => new RegExp(`\\b${path.basename(i)}\\.`).test(body));
    put(`m${idx}/${pkg}/glue.go`, `package ${pkg}\n\nimport (\n${imports.map((i) => `"${i}"\n`).join("")})\n\n${body}`);
    types.ops = desc;
  }
  const described = [
    ...Object.values(ns.types).map((t) => ({
      name: t.name, kind: "type",
      fields: t.fields.map((f) => ({ name: f.name, go: fieldName(f, f.name), type: describe(f.type) })),
    })),
    ...Object.values(ns.unions).map((u) => ({ name: u.name, kind: "union", fields: members(u) })),
  ];
  return { name: "m" + idx, ns: ns.name, packages: [`m${idx}/svc`, `m${idx}/prov`], types: described, ops: types.ops, enums: enums(ns) };
}

const models = [];
for (let i = 0; i < Number(countArg); i++) {
  const r = rng(Number(seedArg) * 1000003 + i * 7919 + (mode == "stubs" ? 5e8 : 0));
  for (let k = 0; k < 3; k++) r.n(2);
  try {
    models.push(mode == "stubs" ? stubsModel(r, i) : typesModel(r, i));
  } catch (e) {
    models.push({ name: "m" + i, packages: [], failed: "the generator failed: " + (e && e.stack || e) });
  }
}
fs.writeFileSync(path.join(out, "models.json"), JSON.stringify(models));
