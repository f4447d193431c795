//! A visitor that reports every callback to a sink (generated once from the trait's methods).
use super::*;
use ratel::ast::expression::*;
use ratel::ast::statement::*;
use ratel::ast::{ExpressionNode, Identifier, Literal, StatementList, StatementNode};

pub trait VisSink {
    fn ev(&mut self, kind: &'static str, start: u32, end: u32, text: &str);
}

pub struct Recorder<'s>(pub &'s mut dyn VisSink);

impl<'s, 'ast> Visitor<'ast> for Recorder<'s> {
    fn push_parent(&mut self, node: ParentNode<'ast>) {
        match node {
            ParentNode::Statement(n) => self.0.ev("push", n.start, n.end, "S"),
            ParentNode::Expression(n) => self.0.ev("push", n.start, n.end, "E"),
        }
    }
    fn pop_parent(&mut self) {
        self.0.ev("pop", 0, 0, "")
    }
    fn on_statement_list(&mut self, body: StatementList<'ast>) {
        self.0.ev("list", body.iter().count() as u32, 0, "")
    }
    fn on_enter_scope(&mut self, kind: ScopeKind) {
        self.0.ev("enter", 0, 0, match kind { ScopeKind::Function => "F", ScopeKind::Block => "B" })
    }
    fn on_leave_scope(&mut self) {
        self.0.ev("leave", 0, 0, "")
    }
    fn on_reference_use(&mut self, ident: &Identifier<'ast>) {
        self.0.ev("use", 0, 0, ident)
    }
    fn on_reference_declaration(&mut self, ident: &Identifier<'ast>) {
        self.0.ev("declare", 0, 0, ident)
    }
    fn on_this_expression(&mut self, node: &'ast ExpressionNode<'ast>) {
        self.0.ev("this_expression", node.start, node.end, "")
    }
    fn on_identifier_expression(&mut self, _item: &Identifier<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.0.ev("identifier_expression", node.start, node.end, "")
    }
    fn on_literal_expression(&mut self, _item: &Literal<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.0.ev("literal_expression", node.start, node.end, "")
    }
    fn on_sequence_expression(&mut self, _item: &SequenceExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.0.ev("sequence_expression", node.start, node.end, "")
    }
    fn on_array_expression(&mut self, _item: &ArrayExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.0.ev("array_expression", node.start, node.end, "")
    }
    fn on_member_expression(&mut self, _item: &MemberExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.0.ev("member_expression", node.start, node.end, "")
    }
    fn on_computed_member_expression(&mut self, _item: &ComputedMemberExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.0.ev("computed_member_expression", node.start, node.end, "")
    }
    fn on_meta_property(&mut self, _item: &MetaPropertyExpression<'ast>, node: &ExpressionNode<'ast>) {
        self.0.ev("meta_property", node.start, node.end, "")
    }
    fn on_call_expression(&mut self, _item: &CallExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.0.ev("call_expression", node.start, node.end, "")
    }
    fn on_binary_expression(&mut self, _item: &BinaryExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.0.ev("binary_expression", node.start, node.end, "")
    }
    fn on_prefix_expression(&mut self, _item: &PrefixExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.0.ev("prefix_expression", node.start, node.end, "")
    }
    fn on_postfix_expression(&mut self, _item: &PostfixExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.0.ev("postfix_expression", node.start, node.end, "")
    }
    fn on_conditional_expression(&mut self, _item: &ConditionalExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.0.ev("conditional_expression", node.start, node.end, "")
    }
    fn on_template_literal(&mut self, _item: &TemplateLiteral<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.0.ev("template_literal", node.start, node.end, "")
    }
    fn on_tagged_template_expression(&mut self, _item: &TaggedTemplateExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.0.ev("tagged_template_expression", node.start, node.end, "")
    }
    fn on_spread_expression(&mut self, _item: &SpreadExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.0.ev("spread_expression", node.start, node.end, "")
    }
    fn on_arrow_expression(&mut self, _item: &ArrowExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.0.ev("arrow_expression", node.start, node.end, "")
    }
    fn on_object_expression(&mut self, _item: &ObjectExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.0.ev("object_expression", node.start, node.end, "")
    }
    fn on_function_expression(&mut self, _item: &FunctionExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.0.ev("function_expression", node.start, node.end, "")
    }
    fn on_class_expression(&mut self, _item: &ClassExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.0.ev("class_expression", node.start, node.end, "")
    }
    fn on_expression_statement(&mut self, _item: &'ast ExpressionNode<'ast>, node: &'ast StatementNode<'ast>) {
        self.0.ev("expression_statement", node.start, node.end, "")
    }
    fn on_declaration_statement(&mut self, _item: &DeclarationStatement<'_>, node: &'ast StatementNode<'ast>) {
        self.0.ev("declaration_statement", node.start, node.end, "")
    }
    fn on_return_statement(&mut self, _item: &ReturnStatement<'_>, node: &'ast StatementNode<'ast>) {
        self.0.ev("return_statement", node.start, node.end, "")
    }
    fn on_break_statement(&mut self, _item: &BreakStatement<'_>, node: &'ast StatementNode<'ast>) {
        self.0.ev("break_statement", node.start, node.end, "")
    }
    fn on_continue_statement(&mut self, _item: &ContinueStatement<'_>, node: &'ast StatementNode<'ast>) {
        self.0.ev("continue_statement", node.start, node.end, "")
    }
    fn on_throw_statement(&mut self, _item: &ThrowStatement<'_>, node: &'ast StatementNode<'ast>) {
        self.0.ev("throw_statement", node.start, node.end, "")
    }
    fn on_if_statement(&mut self, _item: &IfStatement<'_>, node: &'ast StatementNode<'ast>) {
        self.0.ev("if_statement", node.start, node.end, "")
    }
    fn on_while_statement(&mut self, _item: &WhileStatement<'_>, node: &'ast StatementNode<'ast>) {
        self.0.ev("while_statement", node.start, node.end, "")
    }
    fn on_do_statement(&mut self, _item: &DoStatement<'_>, node: &'ast StatementNode<'ast>) {
        self.0.ev("do_statement", node.start, node.end, "")
    }
    fn on_for_statement(&mut self, _item: &ForStatement<'_>, node: &'ast StatementNode<'ast>) {
        self.0.ev("for_statement", node.start, node.end, "")
    }
    fn on_for_in_statement(&mut self, _item: &ForInStatement<'_>, node: &'ast StatementNode<'ast>) {
        self.0.ev("for_in_statement", node.start, node.end, "")
    }
    fn on_for_of_statement(&mut self, _item: &ForOfStatement<'_>, node: &'ast StatementNode<'ast>) {
        self.0.ev("for_of_statement", node.start, node.end, "")
    }
    fn on_try_statement(&mut self, _item: &TryStatement<'_>, node: &'ast StatementNode<'ast>) {
        self.0.ev("try_statement", node.start, node.end, "")
    }
    fn on_block_statement(&mut self, _item: &BlockStatement<'ast>, node: &'ast StatementNode<'ast>) {
        self.0.ev("block_statement", node.start, node.end, "")
    }
    fn on_labeled_statement(&mut self, _item: &LabeledStatement<'_>, node: &'ast StatementNode<'ast>) {
        self.0.ev("labeled_statement", node.start, node.end, "")
    }
    fn on_switch_statement(&mut self, _item: &SwitchStatement<'_>, node: &'ast StatementNode<'ast>) {
        self.0.ev("switch_statement", node.start, node.end, "")
    }
    fn on_function_statement(&mut self, _item: &FunctionStatement<'ast>, node: &'ast StatementNode<'ast>) {
        self.0.ev("function_statement", node.start, node.end, "")
    }
    fn on_class_statement(&mut self, _item: &ClassStatement<'ast>, node: &'ast StatementNode<'ast>) {
        self.0.ev("class_statement", node.start, node.end, "")
    }
    fn on_import_declaration_statement(&mut self, _item: &ImportDeclaration<'ast>, node: &'ast StatementNode<'ast>) {
        self.0.ev("import_declaration_statement", node.start, node.end, "")
    }
}

#[inline(never)]
pub fn visit(m: &'static Mod, sink: &mut dyn VisSink) {
    m.visit_with(&mut Recorder(sink))
}

/// Nodes and names a visitor was handed, kept beyond the visit.
pub struct Kept {
    seen: usize,
    statements: Vec<&'static StatementNode<'static>>,
    expressions: Vec<&'static ExpressionNode<'static>>,
    names: Vec<&'static str>,
}

const KEEP: usize = 24;

fn put<T>(seen: &mut usize, v: &mut Vec<T>, x: T) {
    *seen += 1;
    // no allocation here: the room was made before
    if v.len() < KEEP && (v.len() < KEEP / 2 || *seen % 5 == 0) {
        v.push(x)
    }
}

impl Kept {
    pub fn new() -> Kept {
        Kept { seen: 0, statements: Vec::with_capacity(KEEP), expressions: Vec::with_capacity(KEEP), names: Vec::with_capacity(KEEP) }
    }
    pub fn text(&self, out: &mut String) {
        for n in &self.statements {
            let _ = write!(out, "S {} {}", n.start, n.end);
            if n.end.saturating_sub(n.start) < 120 {
                let _ = write!(out, " {:?}", n.item);
            }
            out.push('\n');
        }
        for n in &self.expressions {
            let _ = write!(out, "E {} {}", n.start, n.end);
            if n.end.saturating_sub(n.start) < 120 {
                let _ = write!(out, " {:?}", n.item);
            }
            out.push('\n');
        }
        for n in &self.names {
            let _ = write!(out, "N {}\n", n);
        }
    }
}

impl Visitor<'static> for Kept {
    fn push_parent(&mut self, node: ParentNode<'static>) {
        match node {
            ParentNode::Statement(n) => put(&mut self.seen, &mut self.statements, n),
            ParentNode::Expression(n) => put(&mut self.seen, &mut self.expressions, n),
        }
    }
    fn on_reference_use(&mut self, ident: &Identifier<'static>) {
        put(&mut self.seen, &mut self.names, *ident)
    }
    fn on_reference_declaration(&mut self, ident: &Identifier<'static>) {
        put(&mut self.seen, &mut self.names, *ident)
    }
}

#[inline(never)]
pub fn keep(m: &'static Mod, kept: &mut Kept) {
    m.visit_with(kept)
}
