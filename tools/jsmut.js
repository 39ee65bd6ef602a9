'use strict'
// Lists small edits of a JavaScript file as JSON: [line, start, end, text, what] with byte offsets.
const ts = require('/opt/veriftools/node/node_modules/typescript')
const fs = require('fs')
const src = fs.readFileSync(process.argv[2], 'utf8')
const sf = ts.createSourceFile('x.js', src, ts.ScriptTarget.Latest, true)
const K = ts.SyntaxKind
const out = []
const bytes = (i) => Buffer.byteLength(src.slice(0, i))
const put = (n, text, what) => {
  const a = n.getStart(sf)
  out.push([sf.getLineAndCharacterOfPosition(a).line + 1, bytes(a), bytes(n.end), text, what])
}
const isLog = (n) => /^(this\.|self\.)?(log|logWithPrefix|addLog|errorLog)\b/.test(n.getText(sf)) 
function walk (n) {
  if (ts.isExpressionStatement(n) && isLog(n)) return
  if (ts.isIfStatement(n) || ts.isWhileStatement(n)) {
    put(n.expression, `!(${n.expression.getText(sf)})`, 'negate')
    put(n.expression, 'false', 'never')
  }
  if (ts.isConditionalExpression(n)) put(n.condition, `!(${n.condition.getText(sf)})`, 'negate')
  if (ts.isBinaryExpression(n)) {
    const op = n.operatorToken.kind
    const l = n.left.getText(sf); const r = n.right.getText(sf)
    if (op === K.AmpersandAmpersandToken || op === K.BarBarToken || op === K.QuestionQuestionToken) {
      put(n, `(${l})`, 'drop right'); put(n, `(${r})`, 'drop left')
    }
    const swap = { '<': '<=', '<=': '<', '>': '>=', '>=': '>', '===': '!==', '!==': '===' }[n.operatorToken.getText(sf)]
    if (swap && !ts.isIfStatement(n.parent)) put(n, `(${l} ${swap} ${r})`, 'compare')
  }
  if (ts.isExpressionStatement(n) && (ts.isCallExpression(n.expression) || ts.isBinaryExpression(n.expression) || ts.isAwaitExpression(n.expression))) put(n, ';', 'drop statement')
  if (ts.isAwaitExpression(n)) put(n, n.expression.getText(sf), 'no await')
  if (ts.isContinueStatement(n) || ts.isBreakStatement(n)) put(n, ';', 'drop jump')
  if (n.kind === K.TrueKeyword) put(n, 'false', 'flip')
  if (n.kind === K.FalseKeyword) put(n, 'true', 'flip')
  if (ts.isNumericLiteral(n)) put(n, String(Number(n.text) + 1), 'plus one')
  if (ts.isReturnStatement(n)) put(n, n.expression ? 'return undefined' : ';', n.expression ? 'return undefined' : 'drop return')
  if (ts.isThrowStatement(n)) put(n, ';', 'drop throw')
  if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && ['trim', 'toLowerCase', 'sort', 'reverse', 'filter', 'slice', 'replace'].includes(n.expression.name.text)) put(n, n.expression.expression.getText(sf), 'unwrap .' + n.expression.name.text)
  if (ts.isRegularExpressionLiteral(n) && /\$\//.test(n.text)) put(n, n.text.replace(/\$\//, '/'), 'no anchor')
  if (ts.isRegularExpressionLiteral(n) && /^\/\^/.test(n.text)) put(n, n.text.replace(/^\/\^/, '/'), 'no anchor')
  if (ts.isArrayLiteralExpression(n)) n.elements.forEach((e, i) => put(n, '[' + n.elements.filter((_, j) => j !== i).map(x => x.getText(sf)).join(', ') + ']', 'drop element ' + i))
  if (ts.isStringLiteral(n) && !/require/.test(n.parent.getText(sf).slice(0, 8)) && n.text.length && !/ /.test(n.text) && n.text !== 'use strict') put(n, "'zz" + "'", 'string')
  ts.forEachChild(n, walk)
}
walk(sf)
console.log(JSON.stringify(out))
