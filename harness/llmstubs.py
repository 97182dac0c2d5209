"""Stand-ins for the clients of the language models: ask[0](messages) is the answer."""
import sys
import types

ask = [None]


class NS:
    def __init__(self, **k):
        self.__dict__.update(k)


def gpt(**k):
    return NS(choices=[NS(message=NS(content=ask[0](k["messages"])))])


def claude(**k):
    return NS(content=[NS(text=ask[0](k["messages"]))])


class Gemini:
    def __init__(self, *a, **k):
        pass

    def start_chat(self, history=()):
        return NS(send_message=lambda m: NS(text=ask[0](list(history) + [m])))

    def generate_content(self, m, **k):
        return NS(text=ask[0](m))


def module(name, **k):
    m = types.ModuleType(name)
    m.__dict__.update(k)
    sys.modules[name] = m
    return m


g = module("google")
g.generativeai = module("google.generativeai", GenerativeModel=Gemini, configure=lambda **k: None)
module("anthropic", Anthropic=lambda **k: NS(messages=NS(create=claude)))
module("openai", OpenAI=lambda **k: NS(chat=NS(completions=NS(create=gpt))))
module("dotenv", load_dotenv=lambda *a, **k: True)
