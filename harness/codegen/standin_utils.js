// Stand-in of apex_codegen's utils.
import { BaseVisitor, Field, Kind, Optional, Type } from "./standin_model.js";

export const capitalize = (s) => s.charAt(0).toUpperCase() + s.slice(1);
export const uncapitalize = (s) => s.charAt(0).toLowerCase() + s.slice(1);
const words = (s) => s.replace(/([a-z0-9])([A-Z])/g, "$1 $2").split(/[^A-Za-z0-9]+/).filter((w) => w);
export const camelCase = (s) => uncapitalize(words(s).map(capitalize).join(""));
export const pascalCase = (s) => capitalize(camelCase(s));
export const snakeCase = (s) => words(s).map((w) => w.toLowerCase()).join("_");
export const isVoid = (t) => t.kind == Kind.Void;
export const isPrimitive = (t) => t.kind == Kind.Primitive;
export const isNamed = (t) => [Kind.Alias, Kind.Enum, Kind.Type, Kind.Union].includes(t.kind);
export const isObject = (t) => {
  while (t.kind == Kind.Optional) t = t.type;
  return t.kind == Kind.Type || t.kind == Kind.Union;
};
export const isOneOfType = (context, types) => types.some((t) => has(context, t));
function has(context, name) {
  const { interface: iface, operation } = context;
  if (iface) return iface.annotation(name) != undefined;
  return operation != undefined && operation.annotation(name) != undefined;
}
export const isService = (context) => has(context, "service");
export const isEvents = (context) => has(context, "events");
export const isHandler = (context) => isService(context) || isEvents(context);
export const isProvider = (context) => has(context, "provider") || has(context, "dependency");
export const noCode = (a) => a != undefined && a.annotation("nocode") != undefined;
export const hasServiceCode = (context) =>
  Object.values(context.namespace.interfaces).some((i) => isHandler(context.clone({ interface: i })));
export const hasCode = hasServiceCode;
export const operationTypeName = (operation) => capitalize(operation.name);
export const operationArgsType = (iface, operation) => (iface ? iface.name : "") + capitalize(operation.name) + "Args";
export const convertOperationToType = (_tr, iface, operation) =>
  new Type(
    operationArgsType(iface, operation),
    operation.parameters.filter((p) => p.type.kind != Kind.Stream).map((p) => new Field(p.name, p.type)),
  );
export const convertUnionToType = (_tr, union) =>
  new Type(
    union.name,
    union.members.map((m) => {
      let t = m;
      while (t.kind == Kind.Optional) t = t.type;
      return new Field(t.name, m.kind == Kind.Optional ? m : new Optional(m));
    }),
  );
export class UsesVisitor extends BaseVisitor { services = new Map(); dependencies = []; }
export class InterfaceUsesVisitor extends UsesVisitor {}
export const formatComment = (prefix, s) => s ? prefix + s + "\n" : "";
