"""Rendering of models to source text."""

def quote(text):
    return "'" + text.replace('\\', '\\\\').replace("'", "\\'") + "'"


def render_expr(expr):
    """Expression model -> text that parses to the same model up to group nodes (every operand is parenthesised)."""
    (kind, body), = expr.items()
    if kind == 'number':
        text = repr(float(body))
        return text[:-2] if text.endswith('.0') else text
    if kind == 'string':
        return quote(body)
    if kind == 'variable':
        return body
    if kind == 'group':
        return f'({render_expr(body)})'
    if kind == 'unary':
        return f'{body["op"]}({render_expr(body["expr"])})'
    if kind == 'binary':
        return f'({render_expr(body["left"])}) {body["op"]} ({render_expr(body["right"])})'
    return f'{body["name"]}({", ".join(render_expr(arg) for arg in body.get("args", []))})'


def render(statements, indent=''):
    lines = []
    for statement in statements:
        (kind, body), = statement.items()
        if kind == 'expr':
            prefix = f'{body["name"]} = ' if 'name' in body else ''
            lines.append(indent + prefix + render_expr(body['expr']))
        elif kind == 'jump':
            lines.append(f'{indent}jumpif ({render_expr(body["expr"])}) {body["label"]}' if 'expr' in body else f'{indent}jump {body["label"]}')
        elif kind == 'label':
            lines.append(f'{indent}{body}:')
        elif kind == 'return':
            lines.append(f'{indent}return {render_expr(body["expr"])}' if 'expr' in body else f'{indent}return')
        elif kind == 'function':
            args = ', '.join(body.get('args') or [])
            lines.append(f'{indent}function {body["name"]}({args}{"..." if body.get("lastArgArray") else ""}):')
            lines.extend(render(body['statements'], indent + '    '))
            lines.append(f'{indent}endfunction')
        elif kind == 'include':
            for include in body['includes']:
                lines.append(f'{indent}include <{include["url"]}>' if include.get('system') else f'{indent}include {quote(include["url"])}')
    return lines


def to_text(model):
    return '\n'.join(render(model['statements'])) + '\n'
