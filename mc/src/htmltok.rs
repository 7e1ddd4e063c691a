//! What a browser's tokenizer sees in the output: html5ever's WHATWG tokenizer
//! with a collecting sink. Used as the independent observer in the oracles.
use html5ever::tendril::StrTendril;
use html5ever::tokenizer::{
    BufferQueue, Tag, TagKind, Token, TokenSink, TokenSinkResult, Tokenizer, TokenizerOpts,
};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok {
    Open { name: String, attrs: Vec<(String, String)>, self_closing: bool },
    Close(String),
    Text(String),
    Comment(String),
    Other,
}

struct Sink(Vec<Tok>, Vec<String>);

impl TokenSink for Sink {
    type Handle = ();
    fn process_token(&mut self, token: Token, _line: u64) -> TokenSinkResult<()> {
        match token {
            Token::TagToken(Tag { kind, name, self_closing, attrs }) => match kind {
                TagKind::StartTag => self.0.push(Tok::Open {
                    name: name.to_string(),
                    attrs: attrs
                        .into_iter()
                        .map(|a| (a.name.local.to_string(), a.value.to_string()))
                        .collect(),
                    self_closing,
                }),
                TagKind::EndTag => self.0.push(Tok::Close(name.to_string())),
            },
            Token::CharacterTokens(s) => {
                if let Some(Tok::Text(t)) = self.0.last_mut() {
                    t.push_str(&s);
                } else {
                    self.0.push(Tok::Text(s.to_string()));
                }
            }
            Token::NullCharacterToken => {
                if let Some(Tok::Text(t)) = self.0.last_mut() {
                    t.push('\0');
                } else {
                    self.0.push(Tok::Text("\0".into()));
                }
            }
            Token::CommentToken(c) => self.0.push(Tok::Comment(c.to_string())),
            Token::DoctypeToken(_) => self.0.push(Tok::Other),
            Token::ParseError(e) => self.1.push(e.to_string()),
            Token::EOFToken => {}
        }
        TokenSinkResult::Continue
    }
}

/// Tokens plus the tokenizer's parse errors.
pub fn tokenize_err(html: &str) -> (Vec<Tok>, Vec<String>) {
    let mut q = BufferQueue::new();
    q.push_back(StrTendril::from(html));
    let mut t = Tokenizer::new(Sink(Vec::new(), Vec::new()), TokenizerOpts::default());
    let _ = t.feed(&mut q);
    t.end();
    (t.sink.0, t.sink.1)
}

pub fn tokenize(html: &str) -> Vec<Tok> {
    tokenize_err(html).0
}

/// Visible text (character data) of an HTML fragment.
pub fn text_of(html: &str) -> String {
    let mut s = String::new();
    for t in tokenize(html) {
        if let Tok::Text(x) = t {
            s.push_str(&x);
        }
    }
    s
}
