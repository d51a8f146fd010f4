"""argparse, as far as it matters: which options there are and what giving them does."""
SUPPRESS = '==SUPPRESS=='
REMAINDER = '...'


def given():
    """The options on the command line: (name, values)."""
    return []


class ArgumentTypeError(Exception):
    pass


class ArgumentError(Exception):
    pass


class HelpFormatter:
    pass


class RawTextHelpFormatter:
    pass


class ArgumentDefaultsHelpFormatter:
    pass


class Namespace:
    def __init__(self, **kwargs):
        for k, v in kwargs.items():
            setattr(self, k, v)


class Action:
    def __init__(self, option_strings, dest, nargs=None, const=None, default=None, type=None, choices=None, required=False, help=None, metavar=None):
        self.option_strings = option_strings
        self.dest = dest
        self.nargs = nargs
        self.const = const
        self.default = default
        self.type = type
        self.choices = choices
        self.required = required
        self.help = help
        self.metavar = metavar
        self.kind = 'custom'

    def __call__(self, parser, namespace, values, option_string=None):
        raise NotImplementedError('call')


class Group:
    def __init__(self, parser, exclusive):
        self.parser = parser
        self.exclusive = exclusive

    def add_argument(self, *names, **kwargs):
        return self.parser.register(names, kwargs, self.exclusive)

    def add_argument_group(self, *args, **kwargs):
        return Group(self.parser, self.exclusive)

    def add_mutually_exclusive_group(self, required=False):
        return Group(self.parser, self.parser.next_exclusive())


class ArgumentParser:
    def __init__(self, prog=None, usage=None, description=None, epilog=None, parents=None, formatter_class=None, **kwargs):
        self.actions = []
        self.groups = 0
        self.overrides = {}

    def next_exclusive(self):
        self.groups += 1
        return self.groups

    def register(self, names, kwargs, exclusive):
        kwargs = dict(kwargs)
        action = kwargs.pop('action', 'store')
        dest = kwargs.pop('dest', None)
        if dest is None:
            longs = [n for n in names if n[:2] == '--']
            chosen = longs[0] if len(longs) > 0 else names[0]
            while chosen[:1] == '-':
                chosen = chosen[1:]
            dest = chosen.replace('-', '_')
        options = [n for n in names if n[:1] == '-']
        if action == 'version' or action == 'help':
            return None
        if isinstance(action, str):
            if action == 'store_true':
                kwargs.setdefault('default', False)
            elif action == 'store_false':
                kwargs.setdefault('default', True)
            elif action not in ('store', 'store_const', 'append'):
                raise NotImplementedError(action)
            made = Action(options, dest, **kwargs)
            made.kind = action
        else:
            made = action(option_strings=options, dest=dest, **kwargs)
            made.kind = 'custom'
        self.actions.append((made, list(names), exclusive))
        return made

    def add_argument(self, *names, **kwargs):
        return self.register(names, kwargs, 0)

    def add_argument_group(self, *args, **kwargs):
        return Group(self, 0)

    def add_mutually_exclusive_group(self, required=False):
        return Group(self, self.next_exclusive())

    def set_defaults(self, **kwargs):
        for k, v in kwargs.items():
            self.overrides[k] = v

    def get_default(self, dest):
        if dest in self.overrides:
            return self.overrides[dest]
        for made, names, exclusive in self.actions:
            if made.dest == dest:
                return made.default
        return None

    def error(self, message):
        raise SystemExit(2)

    def exit(self, status=0, message=None):
        raise SystemExit(status)

    def parse_known_args(self, args=None, namespace=None):
        return self.parse_args(args, namespace), []

    def parse_args(self, args=None, namespace=None):
        result = Namespace() if namespace is None else namespace
        for made, names, exclusive in self.actions:
            if made.default != SUPPRESS and not hasattr(result, made.dest):
                setattr(result, made.dest, self.get_default(made.dest))
        for k, v in self.overrides.items():
            if not hasattr(result, k):
                setattr(result, k, v)
        seen = []
        for name, values in given():
            found = [x for x in self.actions if name in x[1]]
            if len(found) == 0:
                self.error('unrecognised')
            made, names, exclusive = found[0]
            if exclusive > 0:
                if len([x for x in seen if x[0] == exclusive and x[1] != made.dest]) > 0:
                    self.error('not allowed with')
                seen.append((exclusive, made.dest))
            if made.kind == 'store_true' or made.kind == 'store_false':
                if len(values) > 0:
                    self.error('no value expected')
                setattr(result, made.dest, made.kind == 'store_true')
                continue
            if made.kind == 'store_const':
                setattr(result, made.dest, made.const)
                continue
            converted = []
            for value in values:
                if made.type is not None:
                    try:
                        value = made.type(value)
                    except (TypeError, ValueError):
                        self.error('invalid value')
                if made.choices is not None and value not in made.choices:
                    self.error('invalid choice')
                converted.append(value)
            if made.nargs is None:
                if len(converted) != 1:
                    self.error('expected one argument')
                final = converted[0]
            elif made.nargs == '?':
                if len(converted) > 1:
                    self.error('unrecognised')
                final = converted[0] if len(converted) == 1 else made.const
            else:
                final = converted
            if made.kind == 'custom':
                made(self, result, final, name)
            elif made.kind == 'append':
                setattr(result, made.dest, (getattr(result, made.dest) or []) + [final])
            else:
                setattr(result, made.dest, final)
        return result
