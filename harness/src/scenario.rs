//! A scenario is the complete, explicit description of one simulated execution.
//! Running a scenario is a pure function of the scenario and the code under test.
use serde::{Deserialize, Serialize};

/// Byte strings are written to replay files as Latin-1 text (one char per byte).
pub mod latin1 {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &[u8], s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&v.iter().map(|&b| b as char).collect::<String>())
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        Ok(String::deserialize(d)?.chars().map(|c| c as u32 as u8).collect())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Scenario {
    /// Seed of every link, scheduler and server random stream of the run.
    pub seed: u64,
    /// Format the library's log records (they are discarded).
    pub logging: bool,
    pub sessions: Vec<Session>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Session {
    pub start_us: u64,
    pub client: Client,
    pub link: Link,
    pub server: ServerPlan,
    pub connect_cancel: Option<Cancel>,
    pub ops: Vec<Op>,
    pub faults: Vec<Fault>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Client {
    pub utf8: bool,
    pub pipelining: bool,
    pub hello: Hello,
    /// Which of several equivalent ways of calling the library is used.
    #[serde(default)]
    pub style: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Hello {
    Default,
    Domain(String),
    V4([u8; 4]),
    V6([u16; 8]),
    /// The name the operating system reports for the host; None: it reports an error.
    Host(Option<Vec<u8>>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Link {
    pub c2s_cap: usize,
    pub s2c_cap: usize,
    pub lat_min: u64,
    pub lat_jit: u64,
    /// Largest network segment.
    pub seg_max: usize,
    /// Most bytes taken by one write / handed out by one read.
    pub wr_max: usize,
    pub rd_max: usize,
    /// Client-side write buffer emptied only by flush or when full (0: none).
    pub wbuf: usize,
    /// tokio::io::BufStream of this capacity between client and socket (0: none).
    pub wrap: usize,
    /// Permille of calls answered with a spurious Pending.
    pub pend: u32,
    /// Permille of events followed by a spurious wake-up.
    pub spurious: u32,
    /// Upper bound of the delay between wake-up and poll.
    pub sched_jit: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ServerPlan {
    /// The server sends a greeting (and the client expects one).
    pub greeting: bool,
    pub ehlo: Vec<EhloPlan>,
    /// Answer 503 to MAIL inside a transaction (otherwise start over).
    pub strict_nested: bool,
    pub proc_min: u64,
    pub proc_jit: u64,
    /// Send replies only once no complete command is waiting.
    pub batch: bool,
    /// Hold replies to MAIL and RCPT until DATA arrived.
    pub hold_to_data: bool,
    /// Seed and flavour of default reply texts.
    pub texts: u64,
    pub plain_texts: bool,
    pub challenges: Vec<Challenge>,
    pub rules: Vec<Rule>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct EhloPlan {
    pub name_line: String,
    pub lines: Vec<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Challenge {
    /// Base64 of this text.
    Text(String),
    /// These bytes verbatim after "334 ".
    Raw(String),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Greet,
    Ehlo,
    Mail,
    Rcpt,
    Data,
    Eod,
    Auth,
    Sasl,
    Starttls,
    Quit,
    Rset,
    Noop,
    Unknown,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Rule {
    pub on: Kind,
    pub nth: u32,
    pub act: Act,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    /// Well-formed reply with this code and these lines. `bare`: no space after the code of an
    /// empty last line. `close`: the server closes after it.
    Reply { code: u16, lines: Vec<String>, bare: bool, close: bool },
    /// Bytes that are not a valid reply.
    Raw {
        #[serde(with = "latin1")]
        bytes: Vec<u8>,
        close: bool,
    },
    /// The usual reply, this much later.
    Delay(u64),
    /// The usual reply followed at once by unsolicited bytes.
    Extra {
        #[serde(with = "latin1")]
        bytes: Vec<u8>,
    },
    /// The first n bytes of the usual reply, then end of stream.
    Truncate(usize),
    CloseNoReply,
    ResetNoReply,
    /// Process the command, never reply again, keep reading.
    Blackhole,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cancel {
    /// Drop the operation instead of its poll number n (0: before it ran at all).
    Polls(u32),
    /// Drop it after this much simulated time.
    Micros(u64),
    /// Drop it at the first suspension after it wrote n bytes.
    Written(u64),
    /// Drop it at the first suspension after it consumed n bytes of replies.
    Consumed(u64),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Mech {
    Plain,
    Login,
    Xoauth2,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Op {
    pub think_us: u64,
    pub cancel: Option<Cancel>,
    pub what: What,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum What {
    Send {
        from: Option<String>,
        to: Vec<String>,
        #[serde(with = "latin1")]
        body: Vec<u8>,
        source: Source,
    },
    Login { user: String, pass: String, mechs: Vec<Mech>, direct: bool },
    Quit,
    Starttls,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Source {
    Bytes,
    Reader { seed: u64, max: usize, pend: u32, fail_at: Option<usize> },
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Dir {
    C2S,
    S2C,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub dir: Dir,
    /// Stream offset at which it strikes.
    pub at: u64,
    pub what: FaultKind,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum FaultKind {
    /// One failing call, the connection stays usable.
    ErrOnce(u8),
    /// write: Ok(0) once.
    WriteZero,
    /// The next flush fails once.
    FlushErr,
    /// From here on every call of this direction fails alike (writes: 0 means Ok(0), i.e. nothing
    /// can be written); the other direction goes on working.
    Dead(u8),
    Reset,
    /// End of stream towards the client.
    Eof,
    Stall(u64),
}

pub const IO_KINDS: [std::io::ErrorKind; 9] = [
    std::io::ErrorKind::TimedOut,
    std::io::ErrorKind::Other,
    std::io::ErrorKind::ConnectionAborted,
    std::io::ErrorKind::WouldBlock,
    std::io::ErrorKind::UnexpectedEof,
    std::io::ErrorKind::BrokenPipe,
    std::io::ErrorKind::ConnectionReset,
    std::io::ErrorKind::InvalidData,
    std::io::ErrorKind::NotConnected,
];
