// Stand-in of apex_core's model: the kinds, the nodes, their traversal and the
// visitor with its callbacks, as far as a code generator sees them.

export const Kind = {};
for (const k of ["Annotation", "Directive", "Namespace", "Import", "Alias", "Union", "Interface", "Operation",
  "Parameter", "Type", "Field", "Enum", "EnumValue", "Optional", "List", "Map", "Stream", "Primitive", "Void"]) {
  Kind[k] = k;
}

export const PrimitiveName = {
  ID: "ID", Bool: "bool", String: "string", DateTime: "datetime", I8: "i8", U8: "u8", I16: "i16", U16: "u16",
  I32: "i32", U32: "u32", I64: "i64", U64: "u64", F32: "f32", F64: "f64", Bytes: "bytes", Any: "any", Raw: "raw",
  Value: "value",
};

class Node { constructor(kind) { this.kind = kind; } }

class Annotated extends Node {
  constructor(kind, annotations = []) {
    super(kind);
    this.annotations = annotations;
  }
  annotation(name, cb) {
    const a = this.annotations.find((x) => x.name == name);
    if (a && cb) cb(a);
    return a;
  }
}

export class Annotation extends Node {
  constructor(name, args = []) {
    super(Kind.Annotation);
    this.name = name;
    this.arguments = args;
  }
}

export class Primitive extends Node {
  constructor(name) { super(Kind.Primitive); this.name = name; }
}
export class Void extends Node { constructor() { super(Kind.Void); } }
export const VoidValue = new Void();
export class Named extends Annotated {}
export class Alias extends Named {
  constructor(name, type) { super(Kind.Alias); this.name = name; this.type = type; }
  accept(context, visitor) { visitor.visitAlias(context); }
}
export class Optional extends Node { constructor(type) { super(Kind.Optional); this.type = type; } }
export class List extends Node { constructor(type) { super(Kind.List); this.type = type; } }
export class Map extends Node {
  constructor(keyType, valueType) { super(Kind.Map); this.keyType = keyType; this.valueType = valueType; }
}
export class Stream extends Node { constructor(type) { super(Kind.Stream); this.type = type; } }

export class Field extends Annotated {
  constructor(name, type) { super(Kind.Field); this.name = name; this.type = type; }
}
export class Type extends Named {
  constructor(name, fields) { super(Kind.Type); this.name = name; this.fields = fields; }
  accept(context, visitor) {
    context = context.clone({ type: this, fields: this.fields });
    visitor.visitTypeBefore(context);
    visitor.visitType(context);
    visitor.visitTypeFieldsBefore(context);
    this.fields.forEach((field, i) => visitor.visitTypeField(context.clone({ field, fieldIndex: i })));
    visitor.visitTypeFieldsAfter(context);
    visitor.visitTypeAfter(context);
  }
}
export class Union extends Named {
  constructor(name, members) { super(Kind.Union); this.name = name; this.members = this.types = members; }
  accept(context, visitor) {
    context = context.clone({ union: this });
    visitor.visitUnionBefore(context);
    visitor.visitUnion(context);
    visitor.visitUnionAfter(context);
  }
}
export class EnumValue extends Annotated {
  constructor(name, index) { super(Kind.EnumValue); this.name = name; this.index = index; }
}
export class Enum extends Named {
  constructor(name, values) { super(Kind.Enum); this.name = name; this.values = values; }
  accept(context, visitor) {
    context = context.clone({ enum: this, enumValues: this.values });
    visitor.visitEnumBefore(context);
    visitor.visitEnum(context);
    visitor.visitEnumValuesBefore(context);
    this.values.forEach((enumValue) => visitor.visitEnumValue(context.clone({ enumValue })));
    visitor.visitEnumValuesAfter(context);
    visitor.visitEnumAfter(context);
  }
}
export class Parameter extends Annotated {
  constructor(name, type) { super(Kind.Parameter); this.name = name; this.type = type; }
}
export class Operation extends Annotated {
  constructor(name, parameters, type, unary, annotations) {
    super(Kind.Operation, annotations);
    this.name = name;
    this.parameters = parameters;
    this.type = type;
    this.unary = unary;
  }
  isUnary() { return this.unary && this.parameters.filter((p) => p.type.kind != Kind.Stream).length == 1; }
  unaryOp() { return this.parameters.find((p) => p.type.kind != Kind.Stream); }
  accept(context, visitor) {
    const what = context.interface ? "Operation" : "Function";
    context = context.clone({ operation: this, parameters: this.parameters });
    visitor["visit" + what + "Before"](context);
    visitor["visit" + what](context);
    visitor.visitParametersBefore(context);
    this.parameters.forEach((parameter, i) => visitor.visitParameter(context.clone({ parameter, parameterIndex: i })));
    visitor.visitParametersAfter(context);
    visitor["visit" + what + "After"](context);
  }
}
export class Interface extends Annotated {
  constructor(name, operations, annotations) {
    super(Kind.Interface, annotations);
    this.name = name;
    this.operations = operations;
  }
  accept(context, visitor) {
    context = context.clone({ interface: this, operations: this.operations });
    visitor.visitInterfaceBefore(context);
    visitor.visitInterface(context);
    visitor.visitOperationsBefore(context);
    this.operations.forEach((operation) => operation.accept(context.clone({ operation }), visitor));
    visitor.visitOperationsAfter(context);
    visitor.visitInterfaceAfter(context);
  }
}
export class Namespace extends Annotated {
  constructor(name) {
    super(Kind.Namespace);
    this.name = name;
    this.imports = [];
    this.aliases = {};
    this.functions = {};
    this.interfaces = {};
    this.types = {};
    this.unions = {};
    this.enums = {};
  }
  accept(context, visitor) {
    context = context.clone({ namespace: this });
    const each = (m, f) => Object.values(m).forEach(f);
    visitor.visitNamespaceBefore(context);
    visitor.visitNamespace(context);
    visitor.visitImportsBefore(context);
    visitor.visitImportsAfter(context);
    visitor.visitDirectivesBefore(context);
    visitor.visitDirectivesAfter(context);
    visitor.visitAliasesBefore(context);
    each(this.aliases, (alias) => alias.accept(context.clone({ alias }), visitor));
    visitor.visitAliasesAfter(context);
    visitor.visitAllOperationsBefore(context);
    visitor.visitFunctionsBefore(context);
    each(this.functions, (operation) => operation.accept(context.clone({ operation }), visitor));
    visitor.visitFunctionsAfter(context);
    visitor.visitInterfacesBefore(context);
    each(this.interfaces, (i) => i.accept(context.clone({ interface: i }), visitor));
    visitor.visitInterfacesAfter(context);
    visitor.visitAllOperationsAfter(context);
    visitor.visitTypesBefore(context);
    each(this.types, (type) => type.accept(context.clone({ type }), visitor));
    visitor.visitTypesAfter(context);
    visitor.visitUnionsBefore(context);
    each(this.unions, (union) => union.accept(context.clone({ union }), visitor));
    visitor.visitUnionsAfter(context);
    visitor.visitEnumsBefore(context);
    each(this.enums, (e) => e.accept(context.clone({ enum: e }), visitor));
    visitor.visitEnumsAfter(context);
    visitor.visitNamespaceAfter(context);
  }
}

export class Context {
  constructor(config, namespace) {
    this.config = config;
    this.namespace = namespace;
  }
  getType(name) {
    const n = this.namespace;
    return n.types[name] || n.unions[name] || n.enums[name] || n.aliases[name];
  }
  clone(other) {
    const c = new Context(this.config, this.namespace);
    Object.assign(c, this, other);
    return c;
  }
  accept(visitor) {
    visitor.visitContextBefore(this);
    visitor.visitContext(this);
    this.namespace.accept(this, visitor);
    visitor.visitContextAfter(this);
  }
}

export class Writer {
  constructor() { this.code = ""; }
  write(s) { this.code += s; }
  string() { return this.code; }
}

const phases = ["ContextBefore", "Context", "ContextAfter", "NamespaceBefore", "Namespace", "NamespaceAfter",
  "ImportsBefore", "Import", "ImportsAfter", "DirectivesBefore", "DirectiveBefore", "Directive", "DirectiveAfter",
  "DirectivesAfter", "AliasesBefore", "AliasBefore", "Alias", "AliasAfter", "AliasesAfter", "AllOperationsBefore",
  "AllOperationsAfter", "FunctionsBefore", "FunctionBefore", "Function", "FunctionAfter", "FunctionsAfter",
  "InterfacesBefore", "InterfaceBefore", "Interface", "InterfaceAfter", "InterfacesAfter", "OperationsBefore",
  "OperationBefore", "Operation", "OperationAfter", "OperationsAfter", "ParametersBefore", "Parameter",
  "ParametersAfter", "TypesBefore", "TypeBefore", "Type", "TypeFieldsBefore", "TypeField", "TypeFieldsAfter",
  "TypeAfter", "TypesAfter", "UnionsBefore", "UnionBefore", "Union", "UnionAfter", "UnionsAfter", "EnumsBefore",
  "EnumBefore", "Enum", "EnumValuesBefore", "EnumValue", "EnumValuesAfter", "EnumAfter", "EnumsAfter",
  "AnnotationsBefore", "Annotation", "AnnotationsAfter"];

export class BaseVisitor {
  constructor(writer) {
    this.writer = writer;
    this.callbacks = {};
  }
  write(s) { this.writer.write(s); }
  setCallback(phase, purpose, callback) {
    (this.callbacks[phase] ||= {})[purpose] = callback;
  }
  triggerCallbacks(context, phase) {
    Object.values(this.callbacks[phase] || {}).forEach((cb) => cb(context));
  }
}
for (const p of phases) {
  BaseVisitor.prototype["trigger" + p] = function (context) { this.triggerCallbacks(context, p); };
  BaseVisitor.prototype["visit" + p] = function (context) { this["trigger" + p](context); };
}
export const Visitor = BaseVisitor;
export const AnyType = undefined;
