// Stand-in of apex_codegen's Go helpers.
import { BaseVisitor, Kind } from "./standin_model.js";
import { capitalize, convertUnionToType } from "./standin_utils.js";

export const translations = new Map([["ID", "string"], ["bool", "bool"], ["string", "string"],
  ["datetime", "time.Time"], ["i8", "int8"], ["u8", "uint8"], ["i16", "int16"], ["u16", "uint16"], ["i32", "int32"],
  ["u32", "uint32"], ["i64", "int64"], ["u64", "uint64"], ["f32", "float32"], ["f64", "float64"],
  ["bytes", "[]byte"], ["any", "interface{}"], ["raw", "[]byte"], ["value", "interface{}"]]);

let streamPattern = "chan {{type}}";
export function setExpandStreamPattern(p) { streamPattern = p; }
export const expandStreamPattern = () => streamPattern;

export function translateAlias(context) {
  const aliases = context.config.aliases || {};
  return (name) => aliases[name] ? aliases[name].type : undefined;
}

export function expandType(type, packageName, useOptional = true, translate) {
  const inner = (t) => expandType(t, packageName, true, translate);
  switch (type.kind) {
    case Kind.Void:
      return "struct{}";
    case Kind.Primitive:
    case Kind.Alias:
    case Kind.Enum:
    case Kind.Type:
    case Kind.Union: {
      const t = (translate && translate(type.name)) ||
        (type.kind == Kind.Primitive ? translations.get(type.name) : undefined);
      return t || (packageName ? packageName + "." : "") + type.name;
    }
    case Kind.Map:
      return `map[${inner(type.keyType)}]${inner(type.valueType)}`;
    case Kind.List:
      return `[]${inner(type.type)}`;
    case Kind.Optional: {
      const e = inner(type.type);
      const direct = type.type.kind == Kind.List || type.type.kind == Kind.Map ||
        type.type.kind == Kind.Primitive && type.type.name == "bytes";
      return useOptional && !direct ? "*" + e : e;
    }
    case Kind.Stream:
      return streamPattern.replace("{{type}}", inner(type.type));
  }
  return "unknown";
}

const initialisms = { id: "ID", url: "URL" };
const goName = (s) => initialisms[s] || capitalize(s.replace(/Id$/, "ID").replace(/Url$/, "URL"));
export const fieldName = (_annotated, s) => goName(s);
export const methodName = (_annotated, s) => goName(s);
export const functionName = methodName;
export const parameterName = (_annotated, s) => s;
export const renameable = fieldName;

function target(type) {
  while (type.kind == Kind.Alias) type = type.type;
  return type;
}
export const returnPointer = (type) => target(type).kind == Kind.Type ? "*" : "";
export const returnShare = (type) => target(type).kind == Kind.Type ? "&" : "";
export const mapParam = (context, p, packageName, translate) =>
  `${parameterName(p, p.name)} ${returnPointer(p.type)}${
    expandType(p.type, packageName, true, translate || translateAlias(context))
  }`;
export const mapParams = (context, args, packageName, translate) =>
  ["ctx context.Context"].concat(args.map((a) => mapParam(context, a, packageName, translate))).join(", ");
export const mapArgs = mapParams;
export const varAccessParam = (v, args) =>
  ["ctx"].concat(args.map((a) => `${returnShare(a.type)}${v}.${fieldName(a, a.name)}`)).join(", ");
export const msgpackVarAccessParam = varAccessParam;
export const receiver = (iface) => iface.name.charAt(0).toLowerCase();
export const mapVals = (vals, sep, joinOn) => vals.map((v) => v.name + sep).join(joinOn);
export { msgpackRead } from "iota-msgpack-helpers";

export class StructVisitor extends BaseVisitor {
  visitTypeBefore(context) { this.write(`type ${context.type.name} struct {\n`); }
  visitTypeField(context) {
    const f = context.field;
    this.write(`${fieldName(f, f.name)} ${expandType(f.type, undefined, true, translateAlias(context))} ` +
      "`json:\"" + f.name + "\" msgpack:\"" + f.name + "\"`\n");
  }
  visitTypeAfter() { this.write(`}\n\n`); }
}

export class InterfaceVisitor extends BaseVisitor {
  visitInterfaceBefore(context) { this.write(`type ${context.interface.name} interface {\n`); }
  visitOperation(context) {
    const { operation } = context;
    this.write(`${methodName(operation, operation.name)}(${
      mapParams(context, operation.parameters, undefined, translateAlias(context))
    })`);
    this.visitOperationReturn(context);
    this.write(`\n`);
  }
  visitOperationReturn() {}
  visitInterfaceAfter() { this.write(`}\n\n`); }
}

export class ImportsVisitor extends BaseVisitor {
  constructor(writer) {
    super(writer);
    this.imports = {};
  }
  addType(name, i) { this.imports[name] = i; }
  checkType(context, type) {
    const aliases = context.config.aliases || {};
    switch (type.kind) {
      case Kind.Alias:
        if (aliases[type.name]) this.addType(type.name, aliases[type.name]);
        else this.checkType(context, type.type);
        break;
      case Kind.Primitive:
        if (type.name == "datetime") this.addType("datetime", { type: "time.Time", import: "time" });
        break;
      case Kind.List:
      case Kind.Optional:
      case Kind.Stream:
        this.checkType(context, type.type);
        break;
      case Kind.Map:
        this.checkType(context, type.keyType);
        this.checkType(context, type.valueType);
    }
  }
  visitFunction(context) { this.checkType(context, context.operation.type); }
  visitOperation(context) { this.checkType(context, context.operation.type); }
  visitParameter(context) { this.checkType(context, context.parameter.type); }
  visitTypeField(context) { this.checkType(context, context.field.type); }
  visitAlias(context) {
    if (!(context.config.aliases || {})[context.alias.name]) this.checkType(context, context.alias.type);
  }
  visitUnion(context) { context.union.members.forEach((m) => this.checkType(context, m)); }
  visitNamespaceAfter() {
    const all = new Set(Object.values(this.imports).map((i) => i.import).filter((i) => i));
    [...all].sort().forEach((i) => this.write(`"${i}"\n`));
  }
}

// Writes what a module needs besides the codecs and stubs: the interfaces, the
// types of functions, the structs, unions, enums and aliases.
export class InterfacesVisitor extends BaseVisitor {
  visitNamespaceBefore(context) {
    const names = context.namespace;
    this.write(`package ${context.config["package"] || "module"}\n\nimport (\n`);
    if (Object.keys(names.interfaces).length + Object.keys(names.functions).length > 0) this.write(`"context"\n`);
    if (this.importsVisitor) names.accept(context, this.importsVisitor(this.writer));
    this.write(`)\n\n`);
  }
  visitInterface(context) {
    const v = this.serviceVisitor ? this.serviceVisitor(this.writer) : new InterfaceVisitor(this.writer);
    context.interface.accept(context, v);
  }
  visitFunction(context) {
    const { operation } = context;
    const v = this.serviceVisitor ? this.serviceVisitor(this.writer) : new InterfaceVisitor(this.writer);
    this.write(`type ${capitalize(operation.name)}Fn func(${
      mapParams(context, operation.parameters, undefined, translateAlias(context))
    })`);
    v.visitOperationReturn(context);
    this.write(`\n\n`);
  }
  visitType(context) { context.type.accept(context, new StructVisitor(this.writer)); }
  visitUnion(context) {
    const type = convertUnionToType(undefined, context.union);
    type.accept(context.clone({ type }), new StructVisitor(this.writer));
  }
  visitEnum(context) {
    const e = context.enum;
    this.write(`type ${e.name} int32\n\nconst (\n`);
    e.values.forEach((v) => this.write(`${e.name}${capitalize(v.name)} ${e.name} = ${v.index}\n`));
    this.write(`)\n\n`);
  }
  visitAlias(context) {
    const a = context.alias;
    if (!(context.config.aliases || {})[a.name]) {
      this.write(`type ${a.name} ${expandType(a.type, undefined, true)}\n\n`);
    }
  }
}
export class AliasVisitor extends BaseVisitor {}
export class EnumVisitor extends BaseVisitor {}
export class GoVisitor extends BaseVisitor {}
