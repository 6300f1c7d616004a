//! What the nodes of a document display as.
use graphql_parser::{query as q, schema as sc};

type Out = Vec<(&'static str, String)>;

fn value<'a, X: q::Text<'a>>(v: &q::Value<'a, X>, o: &mut Out) {
    o.push(("Value", v.to_string()));
    match v {
        q::Value::List(l) => l.iter().for_each(|x| value(x, o)),
        q::Value::Object(m) => m.values().for_each(|x| value(x, o)),
        _ => {}
    }
}
fn dirs<'a, X: q::Text<'a>>(v: &[q::Directive<'a, X>], o: &mut Out) {
    for d in v {
        o.push(("Directive", d.to_string()));
        d.arguments.iter().for_each(|(_, x)| value(x, o));
    }
}
fn ty<'a, X: q::Text<'a>>(t: &q::Type<'a, X>, o: &mut Out) {
    o.push(("Type", t.to_string()));
    match t {
        q::Type::NamedType(_) => {}
        q::Type::ListType(t) | q::Type::NonNullType(t) => ty(t, o),
    }
}
fn selset<'a, X: q::Text<'a>>(x: &q::SelectionSet<'a, X>, o: &mut Out) {
    if !x.items.is_empty() {
        o.push(("SelectionSet", x.to_string()));
    }
    for x in &x.items {
        match x {
            q::Selection::Field(f) => {
                o.push(("Field", f.to_string()));
                f.arguments.iter().for_each(|(_, x)| value(x, o));
                dirs(&f.directives, o);
                selset(&f.selection_set, o);
            }
            q::Selection::FragmentSpread(f) => {
                o.push(("FragmentSpread", f.to_string()));
                dirs(&f.directives, o);
            }
            q::Selection::InlineFragment(f) => {
                o.push(("InlineFragment", f.to_string()));
                f.type_condition.iter().for_each(|c| o.push(("TypeCondition", c.to_string())));
                dirs(&f.directives, o);
                selset(&f.selection_set, o);
            }
        }
    }
}
pub fn query<'a, X: q::Text<'a>>(d: &q::Document<'a, X>) -> Out {
    use q::OperationDefinition as O;
    let mut o = vec![];
    macro_rules! op {
        ($x:expr) => {{
            for v in &$x.variable_definitions {
                o.push(("VariableDefinition", v.to_string()));
                ty(&v.var_type, &mut o);
                v.default_value.iter().for_each(|v| value(v, &mut o));
            }
            dirs(&$x.directives, &mut o);
            selset(&$x.selection_set, &mut o);
        }};
    }
    for d in &d.definitions {
        o.push(("Definition", d.to_string()));
        match d {
            q::Definition::Operation(x) => {
                o.push(("OperationDefinition", x.to_string()));
                match x {
                    O::SelectionSet(x) => selset(x, &mut o),
                    O::Query(x) => {
                        o.push(("Query", x.to_string()));
                        op!(x)
                    }
                    O::Mutation(x) => {
                        o.push(("Mutation", x.to_string()));
                        op!(x)
                    }
                    O::Subscription(x) => {
                        o.push(("Subscription", x.to_string()));
                        op!(x)
                    }
                }
            }
            q::Definition::Fragment(x) => {
                o.push(("FragmentDefinition", x.to_string()));
                o.push(("TypeCondition", x.type_condition.to_string()));
                dirs(&x.directives, &mut o);
                selset(&x.selection_set, &mut o);
            }
        }
    }
    o
}
fn inputs<'a, X: sc::Text<'a>>(v: &[sc::InputValue<'a, X>], o: &mut Out) {
    for v in v {
        o.push(("InputValue", v.to_string()));
        ty(&v.value_type, o);
        v.default_value.iter().for_each(|v| value(v, o));
        dirs(&v.directives, o);
    }
}
fn fields<'a, X: sc::Text<'a>>(v: &[sc::Field<'a, X>], o: &mut Out) {
    for v in v {
        o.push(("schema Field", v.to_string()));
        inputs(&v.arguments, o);
        ty(&v.field_type, o);
        dirs(&v.directives, o);
    }
}
pub fn schema<'a, X: sc::Text<'a>>(d: &sc::Document<'a, X>) -> Out {
    use sc::{TypeDefinition as D, TypeExtension as E};
    let mut o = vec![];
    macro_rules! kind {
        ($k:expr, $x:expr) => {{
            o.push(($k, $x.to_string()));
            dirs(&$x.directives, &mut o);
        }};
    }
    for d in &d.definitions {
        o.push(("schema Definition", d.to_string()));
        match d {
            sc::Definition::SchemaDefinition(x) => kind!("SchemaDefinition", x),
            sc::Definition::DirectiveDefinition(x) => {
                o.push(("DirectiveDefinition", x.to_string()));
                inputs(&x.arguments, &mut o);
            }
            sc::Definition::TypeDefinition(t) => {
                o.push(("TypeDefinition", t.to_string()));
                match t {
                    D::Scalar(x) => kind!("ScalarType", x),
                    D::Object(x) => {
                        kind!("ObjectType", x);
                        fields(&x.fields, &mut o);
                    }
                    D::Interface(x) => {
                        kind!("InterfaceType", x);
                        fields(&x.fields, &mut o);
                    }
                    D::Union(x) => kind!("UnionType", x),
                    D::Enum(x) => {
                        kind!("EnumType", x);
                        x.values.iter().for_each(|v| dirs(&v.directives, &mut o));
                    }
                    D::InputObject(x) => {
                        kind!("InputObjectType", x);
                        inputs(&x.fields, &mut o);
                    }
                }
            }
            sc::Definition::TypeExtension(t) => {
                o.push(("TypeExtension", t.to_string()));
                match t {
                    E::Scalar(x) => kind!("ScalarTypeExtension", x),
                    E::Object(x) => {
                        kind!("ObjectTypeExtension", x);
                        fields(&x.fields, &mut o);
                    }
                    E::Interface(x) => {
                        kind!("InterfaceTypeExtension", x);
                        fields(&x.fields, &mut o);
                    }
                    E::Union(x) => kind!("UnionTypeExtension", x),
                    E::Enum(x) => {
                        kind!("EnumTypeExtension", x);
                        x.values.iter().for_each(|v| dirs(&v.directives, &mut o));
                    }
                    E::InputObject(x) => {
                        kind!("InputObjectTypeExtension", x);
                        inputs(&x.fields, &mut o);
                    }
                }
            }
        }
    }
    o
}
