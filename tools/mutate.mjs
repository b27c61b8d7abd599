// node tools/mutate.mjs FILE [from-to] : prints one JSON line per mutant {line, kind, start, end, text, was}
// of a file of the library; used to look for changes that no check notices (see DESIGN.md).
import ts from "/opt/veriftools/node/node_modules/typescript/lib/typescript.js";
import { readFileSync } from "node:fs";
const [file, range] = process.argv.slice(2);
const src = readFileSync(file, "utf8");
const sf = ts.createSourceFile(file, src, ts.ScriptTarget.Latest, true);
const [lo, hi] = (range ?? "1-1000000").split("-").map(Number);
const out = [];
const K = ts.SyntaxKind;
const add = (n, kind, text, start = n.getStart(sf), end = n.getEnd()) => {
  const line = sf.getLineAndCharacterOfPosition(start).line + 1;
  if (line < lo || line > hi) return;
  const was = src.slice(start, end);
  if (/\bL[A-Z]?[A-Za-z]*\b\.(debug|error|warning|info|in|out|client|net|trace)|LD\.|console\./.test(was) && kind === "drop") return;
  if (was !== text) out.push({ line, kind, start, end, text, was: was.slice(0, 160) });
};
const swap = {
  [K.LessThanToken]: ["<="], [K.LessThanEqualsToken]: ["<"], [K.GreaterThanToken]: [">="], [K.GreaterThanEqualsToken]: [">"],
  [K.EqualsEqualsEqualsToken]: ["!=="], [K.ExclamationEqualsEqualsToken]: ["==="], [K.EqualsEqualsToken]: ["!="], [K.ExclamationEqualsToken]: ["=="],
  [K.AmpersandAmpersandToken]: ["||"], [K.BarBarToken]: ["&&"], [K.PlusToken]: ["-"], [K.MinusToken]: ["+"], [K.AsteriskToken]: ["/"],
  [K.PercentToken]: ["*"], [K.AmpersandToken]: ["|"], [K.LessThanLessThanToken]: [">>"], [K.PlusEqualsToken]: ["-="], [K.MinusEqualsToken]: ["+="],
};
function visit(n) {
  if (ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isImportDeclaration(n)) return;
  if (ts.isBinaryExpression(n)) for (const t of swap[n.operatorToken.kind] ?? []) add(n.operatorToken, "op", t);
  if (ts.isExpressionStatement(n)) {
    const e = n.expression;
    if (!(ts.isCallExpression(e) && e.expression.kind === K.SuperKeyword)) add(n, "drop", ";");
  }
  if (ts.isIfStatement(n)) {
    add(n.expression, "true", "true");
    add(n.expression, "false", "false");
  }
  if (ts.isAwaitExpression(n) && ts.isExpressionStatement(n.parent)) add(n, "noawait", "void " + n.expression.getText(sf));
  if (ts.isNumericLiteral(n) && !ts.isPropertyAssignment(n.parent)) add(n, "num", String(Number(n.text.replaceAll("_", "")) + 1));
  if (ts.isBigIntLiteral(n)) add(n, "num", String(BigInt(n.text.slice(0, -1)) + 1n) + "n");
  if (n.kind === K.TrueKeyword && !ts.isLiteralTypeNode(n.parent)) add(n, "bool", "false");
  if (n.kind === K.FalseKeyword && !ts.isLiteralTypeNode(n.parent)) add(n, "bool", "true");
  if (ts.isConditionalExpression(n)) add(n, "swap", `${n.condition.getText(sf)} ? ${n.whenFalse.getText(sf)} : ${n.whenTrue.getText(sf)}`);
  if (ts.isPrefixUnaryExpression(n) && n.operator === K.ExclamationToken) add(n, "not", n.operand.getText(sf));
  if (ts.isContinueStatement(n) || ts.isBreakStatement(n) && !ts.isCaseClause(n.parent)) add(n, "drop", ";");
  if (ts.isReturnStatement(n) && !n.expression) add(n, "drop", ";");
  if (ts.isTryStatement(n) && n.finallyBlock) add(n.finallyBlock, "nofinally", "{}");
  ts.forEachChild(n, visit);
}
visit(sf);
for (const m of out) console.log(JSON.stringify(m));
