//! Real AST -> neutral tree, through the public fields only.
use crate::tree::{opt, s, P, T};
use graphql_parser::{query as q, schema as sc, Pos};

fn pos(p: Pos) -> T {
    T::Pos(P(p.line, p.column))
}
fn names<S: AsRef<str>>(v: &[S]) -> T {
    T::L(v.iter().map(|x| s(x.as_ref())).collect())
}
fn oname<S: AsRef<str>>(v: &Option<S>) -> T {
    opt(v.as_ref().map(|x| s(x.as_ref())))
}
fn desc(v: &Option<String>) -> T {
    opt(v.as_ref().map(|x| s(x)))
}

pub fn value<'a, X: q::Text<'a>>(v: &q::Value<'a, X>) -> T {
    match v {
        q::Value::Variable(n) => T::N("Variable", vec![("name", s(n.as_ref()))]),
        q::Value::Int(n) => T::I(n.as_i64().expect("as_i64 of a parsed number")),
        q::Value::Float(f) => T::F(f.to_bits()),
        q::Value::String(x) => s(x),
        q::Value::Boolean(b) => T::B(*b),
        q::Value::Null => T::N("Null", vec![]),
        q::Value::Enum(n) => T::N("Enum", vec![("name", s(n.as_ref()))]),
        q::Value::List(l) => T::L(l.iter().map(value).collect()),
        q::Value::Object(o) => T::N(
            "Object",
            vec![(
                "fields",
                T::L(o.iter().map(|(k, v)| T::L(vec![s(k.as_ref()), value(v)])).collect()),
            )],
        ),
    }
}
fn args<'a, X: q::Text<'a>>(v: &[(X::Value, q::Value<'a, X>)]) -> T {
    T::L(v.iter().map(|(k, v)| T::L(vec![s(k.as_ref()), value(v)])).collect())
}
pub fn directive<'a, X: q::Text<'a>>(d: &q::Directive<'a, X>) -> T {
    T::N(
        "Directive",
        vec![("pos", pos(d.position)), ("name", s(d.name.as_ref())), ("args", args::<X>(&d.arguments))],
    )
}
fn dirs<'a, X: q::Text<'a>>(v: &[q::Directive<'a, X>]) -> T {
    T::L(v.iter().map(directive).collect())
}
pub fn ty<'a, X: q::Text<'a>>(t: &q::Type<'a, X>) -> T {
    match t {
        q::Type::NamedType(n) => s(n.as_ref()),
        q::Type::ListType(t) => T::N("List", vec![("of", ty(t))]),
        q::Type::NonNullType(t) => T::N("NonNull", vec![("of", ty(t))]),
    }
}
fn cond<'a, X: q::Text<'a>>(c: &q::TypeCondition<'a, X>) -> T {
    match c {
        q::TypeCondition::On(n) => s(n.as_ref()),
    }
}
fn selset<'a, X: q::Text<'a>>(x: &q::SelectionSet<'a, X>) -> T {
    T::N(
        "SelectionSet",
        vec![
            ("start", pos(x.span.0)),
            ("end", pos(x.span.1)),
            ("items", T::L(x.items.iter().map(sel).collect())),
        ],
    )
}
fn sel<'a, X: q::Text<'a>>(x: &q::Selection<'a, X>) -> T {
    match x {
        q::Selection::Field(f) => T::N(
            "Field",
            vec![
                ("pos", pos(f.position)),
                ("alias", oname(&f.alias)),
                ("name", s(f.name.as_ref())),
                ("args", args::<X>(&f.arguments)),
                ("dirs", dirs(&f.directives)),
                ("sel", selset(&f.selection_set)),
            ],
        ),
        q::Selection::FragmentSpread(f) => T::N(
            "Spread",
            vec![("pos", pos(f.position)), ("name", s(f.fragment_name.as_ref())), ("dirs", dirs(&f.directives))],
        ),
        q::Selection::InlineFragment(f) => T::N(
            "Inline",
            vec![
                ("pos", pos(f.position)),
                ("cond", opt(f.type_condition.as_ref().map(cond))),
                ("dirs", dirs(&f.directives)),
                ("sel", selset(&f.selection_set)),
            ],
        ),
    }
}
fn vars<'a, X: q::Text<'a>>(v: &[q::VariableDefinition<'a, X>]) -> T {
    T::L(
        v.iter()
            .map(|v| {
                T::N(
                    "Var",
                    vec![
                        ("pos", pos(v.position)),
                        ("name", s(v.name.as_ref())),
                        ("type", ty(&v.var_type)),
                        ("default", opt(v.default_value.as_ref().map(value))),
                    ],
                )
            })
            .collect(),
    )
}
macro_rules! op {
    ($k:expr, $o:expr) => {
        T::N(
            $k,
            vec![
                ("pos", pos($o.position)),
                ("name", oname(&$o.name)),
                ("vars", vars(&$o.variable_definitions)),
                ("dirs", dirs(&$o.directives)),
                ("sel", selset(&$o.selection_set)),
            ],
        )
    };
}
pub fn qdef<'a, X: q::Text<'a>>(d: &q::Definition<'a, X>) -> T {
    use q::OperationDefinition as O;
    match d {
        q::Definition::Operation(O::SelectionSet(x)) => selset(x),
        q::Definition::Operation(O::Query(x)) => op!("Query", x),
        q::Definition::Operation(O::Mutation(x)) => op!("Mutation", x),
        q::Definition::Operation(O::Subscription(x)) => op!("Subscription", x),
        q::Definition::Fragment(f) => T::N(
            "Fragment",
            vec![
                ("pos", pos(f.position)),
                ("name", s(f.name.as_ref())),
                ("cond", cond(&f.type_condition)),
                ("dirs", dirs(&f.directives)),
                ("sel", selset(&f.selection_set)),
            ],
        ),
    }
}
pub fn qdoc<'a, X: q::Text<'a>>(d: &q::Document<'a, X>) -> T {
    T::L(d.definitions.iter().map(qdef).collect())
}

fn inputs<'a, X: sc::Text<'a>>(v: &[sc::InputValue<'a, X>]) -> T {
    T::L(
        v.iter()
            .map(|v| {
                T::N(
                    "Input",
                    vec![
                        ("pos", pos(v.position)),
                        ("desc", desc(&v.description)),
                        ("name", s(v.name.as_ref())),
                        ("type", ty(&v.value_type)),
                        ("default", opt(v.default_value.as_ref().map(value))),
                        ("dirs", dirs(&v.directives)),
                    ],
                )
            })
            .collect(),
    )
}
fn fields<'a, X: sc::Text<'a>>(v: &[sc::Field<'a, X>]) -> T {
    T::L(
        v.iter()
            .map(|v| {
                T::N(
                    "FieldDef",
                    vec![
                        ("pos", pos(v.position)),
                        ("desc", desc(&v.description)),
                        ("name", s(v.name.as_ref())),
                        ("args", inputs(&v.arguments)),
                        ("type", ty(&v.field_type)),
                        ("dirs", dirs(&v.directives)),
                    ],
                )
            })
            .collect(),
    )
}
fn evals<'a, X: sc::Text<'a>>(v: &[sc::EnumValue<'a, X>]) -> T {
    T::L(
        v.iter()
            .map(|v| {
                T::N(
                    "EnumValue",
                    vec![
                        ("pos", pos(v.position)),
                        ("desc", desc(&v.description)),
                        ("name", s(v.name.as_ref())),
                        ("dirs", dirs(&v.directives)),
                    ],
                )
            })
            .collect(),
    )
}
pub fn sdef<'a, X: sc::Text<'a>>(d: &sc::Definition<'a, X>) -> T {
    use sc::{TypeDefinition as D, TypeExtension as E};
    macro_rules! h {
        ($x:expr) => {
            vec![
                ("pos", pos($x.position)),
                ("desc", desc(&$x.description)),
                ("name", s($x.name.as_ref())),
                ("dirs", dirs(&$x.directives)),
            ]
        };
    }
    macro_rules! e {
        ($x:expr) => {
            vec![("pos", pos($x.position)), ("name", s($x.name.as_ref())), ("dirs", dirs(&$x.directives))]
        };
    }
    fn with(mut v: Vec<(&'static str, T)>, w: Vec<(&'static str, T)>) -> Vec<(&'static str, T)> {
        v.extend(w);
        v
    }
    match d {
        sc::Definition::SchemaDefinition(x) => T::N(
            "Schema",
            vec![
                ("pos", pos(x.position)),
                ("dirs", dirs(&x.directives)),
                ("query", oname(&x.query)),
                ("mutation", oname(&x.mutation)),
                ("subscription", oname(&x.subscription)),
            ],
        ),
        sc::Definition::TypeDefinition(t) => match t {
            D::Scalar(x) => T::N("Scalar", h!(x)),
            D::Object(x) => T::N(
                "Object",
                with(h!(x), vec![("impl", names(&x.implements_interfaces)), ("fields", fields(&x.fields))]),
            ),
            D::Interface(x) => T::N(
                "Interface",
                with(h!(x), vec![("impl", names(&x.implements_interfaces)), ("fields", fields(&x.fields))]),
            ),
            D::Union(x) => T::N("Union", with(h!(x), vec![("types", names(&x.types))])),
            D::Enum(x) => T::N("EnumDef", with(h!(x), vec![("values", evals(&x.values))])),
            D::InputObject(x) => T::N("InputObject", with(h!(x), vec![("fields", inputs(&x.fields))])),
        },
        sc::Definition::TypeExtension(t) => match t {
            E::Scalar(x) => T::N("ExtScalar", e!(x)),
            E::Object(x) => T::N(
                "ExtObject",
                with(e!(x), vec![("impl", names(&x.implements_interfaces)), ("fields", fields(&x.fields))]),
            ),
            E::Interface(x) => T::N(
                "ExtInterface",
                with(e!(x), vec![("impl", names(&x.implements_interfaces)), ("fields", fields(&x.fields))]),
            ),
            E::Union(x) => T::N("ExtUnion", with(e!(x), vec![("types", names(&x.types))])),
            E::Enum(x) => T::N("ExtEnum", with(e!(x), vec![("values", evals(&x.values))])),
            E::InputObject(x) => T::N("ExtInputObject", with(e!(x), vec![("fields", inputs(&x.fields))])),
        },
        sc::Definition::DirectiveDefinition(x) => T::N(
            "DirectiveDef",
            vec![
                ("pos", pos(x.position)),
                ("desc", desc(&x.description)),
                ("name", s(x.name.as_ref())),
                ("args", inputs(&x.arguments)),
                ("repeatable", T::B(x.repeatable)),
                ("locations", T::L(x.locations.iter().map(|l| s(&format!("{:?}", l))).collect())),
            ],
        ),
    }
}
pub fn sdoc<'a, X: sc::Text<'a>>(d: &sc::Document<'a, X>) -> T {
    T::L(d.definitions.iter().map(sdef).collect())
}
