//! A stand-in for pyo3 with an object model in Rust in the place of the interpreter: just enough of
//! the interface for the sources of the extension to be compiled unchanged, called through the
//! names, signatures and conversions that they declare, and observed.
//!
//! Objects are reference counted like those of Python; an instance holds the value of its class, an
//! awaitable the future that its awaiter polls.
use std::any::{Any, TypeId};
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::fmt;
use std::future::Future;
use std::hash::Hash;
use std::marker::PhantomData;
use std::ops::Deref;
use std::pin::Pin;
use std::sync::{Arc, Mutex, Weak};

pub use bytes;
pub use pyo3_macros::{pyclass, pyfunction, pymethods, pymodule};

pub type BoxFuture = Pin<Box<dyn Future<Output = PyResult<Obj>> + Send>>;
pub type PyResult<T> = Result<T, PyErr>;

/// An object that the harness implements.
pub trait Native: Send + Sync {
    fn as_any(&self) -> &dyn Any;
    fn hasattr(&self, _name: &str) -> bool {
        false
    }
    fn call_method(&self, name: &str, _args: rt::Args) -> PyResult<Obj> {
        Err(exceptions::PyAttributeError::new_err(name.to_string()))
    }
    fn call(&self, _args: rt::Args) -> PyResult<Obj> {
        Err(exceptions::PyTypeError::new_err("the object is not callable"))
    }
}

pub struct Instance {
    ty: TypeId,
    class: &'static str,
    methods: fn() -> Vec<rt::Method>,
    fields: fn() -> Vec<rt::Method>,
    eq: fn() -> Option<rt::Eq>,
    getbuffer: fn() -> Option<rt::GetBuffer>,
    releasebuffer: fn() -> Option<rt::ReleaseBuffer>,
    value: UnsafeCell<Box<dyn Any + Send>>,
}

pub struct ClassInfo {
    pub name: &'static str,
    methods: fn() -> Vec<rt::Method>,
}

pub enum Kind {
    None,
    Bool(bool),
    Int(i128),
    Float(f64),
    Str(String),
    Bytes(bytes::Bytes),
    List(Vec<Obj>),
    Tuple(Vec<Obj>),
    Dict(Mutex<Vec<(Obj, Obj)>>),
    Iter(Vec<Obj>),
    /// A member of an enumeration of integers.
    Member { class: String, name: String, value: i128 },
    EnumClass { name: String, members: Vec<(String, i128)> },
    Module { name: String, attrs: Mutex<Vec<(String, Obj)>> },
    Class(ClassInfo),
    Instance(Instance),
    Native(Box<dyn Native>),
    Awaitable(Mutex<Option<BoxFuture>>),
    Exception(PyErr),
}

pub struct Obj(Arc<Kind>);

// SAFETY: an execution of the harness uses its objects in one thread at a time.
unsafe impl Send for Obj {}
unsafe impl Sync for Obj {}

impl Clone for Obj {
    fn clone(&self) -> Self {
        Obj(self.0.clone())
    }
}

impl fmt::Debug for Obj {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.kind() {
            Kind::None => write!(f, "None"),
            Kind::Bool(b) => write!(f, "{b}"),
            Kind::Int(i) => write!(f, "{i}"),
            Kind::Float(x) => write!(f, "{x:?}"),
            Kind::Str(s) => write!(f, "{s:?}"),
            Kind::Bytes(b) => write!(f, "b{:?}", &b[..]),
            Kind::List(l) => f.debug_list().entries(l).finish(),
            Kind::Iter(l) => write!(f, "iter({l:?})"),
            Kind::Tuple(l) => {
                let mut t = f.debug_tuple("");
                for x in l {
                    t.field(x);
                }
                t.finish()
            }
            Kind::Dict(d) => {
                let mut d = d.lock().unwrap().clone();
                d.sort_by_key(|x| format!("{:?}", x.0));
                f.debug_map().entries(d.iter().map(|(k, v)| (k, v))).finish()
            }
            Kind::Member { class, name, value } => write!(f, "<{class}.{name}: {value}>"),
            Kind::EnumClass { name, .. } => write!(f, "<enum {name}>"),
            Kind::Module { name, .. } => write!(f, "<module {name}>"),
            Kind::Class(c) => write!(f, "<class {}>", c.name),
            Kind::Instance(i) => write!(f, "<{} object>", i.class),
            Kind::Native(_) => write!(f, "<object>"),
            Kind::Awaitable(_) => write!(f, "<awaitable>"),
            Kind::Exception(e) => write!(f, "{e:?}"),
        }
    }
}

impl Obj {
    pub fn new(k: Kind) -> Obj {
        Obj(Arc::new(k))
    }
    pub fn none() -> Obj {
        Obj::new(Kind::None)
    }
    pub fn str(s: &str) -> Obj {
        Obj::new(Kind::Str(s.into()))
    }
    pub fn int(i: impl Into<i128>) -> Obj {
        Obj::new(Kind::Int(i.into()))
    }
    pub fn float(x: f64) -> Obj {
        Obj::new(Kind::Float(x))
    }
    pub fn bytes(b: impl Into<bytes::Bytes>) -> Obj {
        Obj::new(Kind::Bytes(b.into()))
    }
    pub fn list(v: Vec<Obj>) -> Obj {
        Obj::new(Kind::List(v))
    }
    pub fn tuple(v: Vec<Obj>) -> Obj {
        Obj::new(Kind::Tuple(v))
    }
    pub fn dict(v: Vec<(Obj, Obj)>) -> Obj {
        Obj::new(Kind::Dict(Mutex::new(v)))
    }
    pub fn native(n: impl Native + 'static) -> Obj {
        Obj::new(Kind::Native(Box::new(n)))
    }
    pub fn module(name: &str) -> Obj {
        Obj::new(Kind::Module { name: name.into(), attrs: Mutex::new(vec![]) })
    }
    pub fn awaitable(f: BoxFuture) -> Obj {
        Obj::new(Kind::Awaitable(Mutex::new(Some(f))))
    }
    pub fn instance<T: rt::PyClass + rt::PyMethods>(v: T) -> Obj {
        Obj::new(Kind::Instance(Instance {
            ty: TypeId::of::<T>(),
            class: T::NAME,
            methods: T::methods,
            fields: T::fields,
            eq: T::eq,
            getbuffer: T::getbuffer,
            releasebuffer: T::releasebuffer,
            value: UnsafeCell::new(Box::new(v)),
        }))
    }
    pub fn kind(&self) -> &Kind {
        &self.0
    }
    pub fn is_none(&self) -> bool {
        matches!(self.kind(), Kind::None)
    }
    pub fn is(&self, o: &Obj) -> bool {
        Arc::ptr_eq(&self.0, &o.0)
    }
    pub fn refs(&self) -> usize {
        Arc::strong_count(&self.0)
    }
    pub fn weak(&self) -> WeakObj {
        WeakObj(Arc::downgrade(&self.0))
    }
    pub fn type_name(&self) -> String {
        match self.kind() {
            Kind::None => "NoneType".into(),
            Kind::Bool(_) => "bool".into(),
            Kind::Int(_) => "int".into(),
            Kind::Float(_) => "float".into(),
            Kind::Str(_) => "str".into(),
            Kind::Bytes(_) => "bytes".into(),
            Kind::List(_) => "list".into(),
            Kind::Tuple(_) => "tuple".into(),
            Kind::Dict(_) => "dict".into(),
            Kind::Member { class, .. } => class.clone(),
            Kind::Instance(i) => i.class.into(),
            Kind::Exception(e) => e.class.into(),
            Kind::Awaitable(_) => "awaitable".into(),
            _ => "object".into(),
        }
    }

    /// The future of an awaitable, which can be awaited once.
    pub fn take_future(&self) -> PyResult<BoxFuture> {
        match self.kind() {
            Kind::Awaitable(f) => f
                .lock()
                .unwrap()
                .take()
                .ok_or_else(|| exceptions::PyRuntimeError::new_err("cannot reuse already awaited coroutine")),
            _ => Err(exceptions::PyTypeError::new_err("An asyncio.Future, a coroutine or an awaitable is required")),
        }
    }

    fn cell<T: 'static>(&self) -> PyResult<*mut T> {
        match self.kind() {
            Kind::Instance(i) if i.ty == TypeId::of::<T>() => {
                // SAFETY: see `Send`
                let b = unsafe { &mut *i.value.get() };
                Ok(b.downcast_mut::<T>().unwrap())
            }
            _ => Err(exceptions::PyTypeError::new_err(format!("unexpected type '{}'", self.type_name()))),
        }
    }
    /// The value of an instance. The caller keeps the object.
    pub fn instance_ref<'x, T: 'static>(&self) -> PyResult<&'x T> {
        // SAFETY: the object is alive while its method runs
        self.cell::<T>().map(|p| unsafe { &*p })
    }
    pub fn instance_mut<'x, T: 'static>(&self) -> PyResult<&'x mut T> {
        // SAFETY: the object is alive while its method runs
        self.cell::<T>().map(|p| unsafe { &mut *p })
    }

    pub fn has(&self, name: &str) -> bool {
        match self.kind() {
            Kind::Native(n) => n.hasattr(name),
            Kind::Module { .. } | Kind::EnumClass { .. } => self.attr(name).is_ok(),
            Kind::Instance(i) => (i.fields)().iter().chain((i.methods)().iter()).any(|m| m.name == name),
            _ => false,
        }
    }

    /// `obj.name`
    pub fn attr(&self, name: &str) -> PyResult<Obj> {
        let missing = || exceptions::PyAttributeError::new_err(format!("'{}' object has no attribute '{name}'", self.type_name()));
        match self.kind() {
            Kind::Instance(i) => {
                let all = (i.fields)().into_iter().chain((i.methods)());
                let m = all.into_iter().find(|m| m.name == name && m.kind == rt::How::Getter).ok_or_else(missing)?;
                (m.call)(self, &rt::Args::default())
            }
            Kind::EnumClass { name: class, members } => members
                .iter()
                .find(|m| m.0 == name)
                .map(|m| Obj::new(Kind::Member { class: class.clone(), name: m.0.clone(), value: m.1 }))
                .ok_or_else(missing),
            Kind::Module { attrs, .. } => attrs.lock().unwrap().iter().find(|a| a.0 == name).map(|a| a.1.clone()).ok_or_else(missing),
            Kind::Member { name: n, value, .. } => match name {
                "name" => Ok(Obj::str(n)),
                "value" => Ok(Obj::int(*value)),
                _ => Err(missing()),
            },
            _ => Err(missing()),
        }
    }

    /// `obj(...)`
    pub fn call(&self, args: rt::Args) -> PyResult<Obj> {
        match self.kind() {
            Kind::Native(n) => n.call(args),
            Kind::EnumClass { name, members } => {
                let v = match args.pos.first() {
                    Some(o) => rt::extract::<i128>(o)?,
                    None => return Err(rt::missing("value")),
                };
                members
                    .iter()
                    .find(|m| m.1 == v)
                    .map(|m| Obj::new(Kind::Member { class: name.clone(), name: m.0.clone(), value: m.1 }))
                    .ok_or_else(|| exceptions::PyValueError::new_err(format!("{v} is not a valid {name}")))
            }
            Kind::Class(c) => {
                let m = (c.methods)()
                    .into_iter()
                    .find(|m| m.kind == rt::How::New)
                    .ok_or_else(|| exceptions::PyTypeError::new_err(format!("cannot create '{}' instances", c.name)))?;
                (m.call)(self, &args)
            }
            _ => Err(exceptions::PyTypeError::new_err(format!("'{}' object is not callable", self.type_name()))),
        }
    }

    /// `obj.name(...)`
    pub fn call_method(&self, name: &str, args: rt::Args) -> PyResult<Obj> {
        match self.kind() {
            Kind::Native(n) => n.call_method(name, args),
            Kind::Instance(i) => {
                let m = (i.methods)()
                    .into_iter()
                    .find(|m| m.name == name && m.kind != rt::How::Getter && m.kind != rt::How::New)
                    .ok_or_else(|| exceptions::PyAttributeError::new_err(format!("'{}' object has no attribute '{name}'", i.class)))?;
                (m.call)(self, &args)
            }
            Kind::Class(c) => {
                let m = (c.methods)()
                    .into_iter()
                    .find(|m| m.name == name && m.kind == rt::How::Class)
                    .ok_or_else(|| exceptions::PyAttributeError::new_err(format!("type object '{}' has no attribute '{name}'", c.name)))?;
                (m.call)(self, &args)
            }
            Kind::List(l) | Kind::Tuple(l) if name == "__iter__" => Ok(Obj::new(Kind::Iter(l.clone()))),
            Kind::Iter(_) if name == "__iter__" => Ok(self.clone()),
            Kind::Module { name: m, .. } if m == "warnings" => Ok(Obj::none()),
            _ => self.attr(name)?.call(args),
        }
    }

    /// `==`
    pub fn same(&self, o: &Obj) -> bool {
        let num = |x: &Obj| match x.kind() {
            Kind::Int(i) | Kind::Member { value: i, .. } => Some(*i),
            Kind::Bool(b) => Some(*b as i128),
            _ => None,
        };
        if let (Some(a), Some(b)) = (num(self), num(o)) {
            return a == b;
        }
        let all = |a: &[Obj], b: &[Obj]| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.same(b));
        match (self.kind(), o.kind()) {
            (Kind::None, Kind::None) => true,
            (Kind::Float(a), Kind::Float(b)) => a == b,
            (Kind::Float(a), _) => num(o).is_some_and(|b| *a == b as f64),
            (_, Kind::Float(b)) => num(self).is_some_and(|a| a as f64 == *b),
            (Kind::Str(a), Kind::Str(b)) => a == b,
            (Kind::Bytes(a), Kind::Bytes(b)) => a == b,
            (Kind::List(a), Kind::List(b)) | (Kind::Tuple(a), Kind::Tuple(b)) | (Kind::Iter(a), Kind::Iter(b)) => all(a, b),
            (Kind::Dict(a), Kind::Dict(b)) => {
                if self.is(o) {
                    return true;
                }
                let (a, b) = (a.lock().unwrap(), b.lock().unwrap());
                a.len() == b.len() && a.iter().all(|(k, v)| b.iter().any(|(l, w)| k.same(l) && v.same(w)))
            }
            (Kind::Instance(a), Kind::Instance(b)) => {
                self.is(o) || a.ty == b.ty && (a.eq)().is_some_and(|f| f(self, o).unwrap_or(false))
            }
            _ => self.is(o),
        }
    }

    /// The buffer of the object.
    pub fn buffer(&self, flags: std::os::raw::c_int) -> PyResult<Buffer> {
        let no = || exceptions::PyTypeError::new_err(format!("a bytes-like object is required, not '{}'", self.type_name()));
        let Kind::Instance(i) = self.kind() else { return Err(no()) };
        let get = (i.getbuffer)().ok_or_else(no)?;
        let mut b = Buffer { view: Box::new(ffi::Py_buffer::new()) };
        get(self, &mut *b.view, flags)?;
        Ok(b)
    }
}

pub struct WeakObj(Weak<Kind>);

impl WeakObj {
    pub fn alive(&self) -> bool {
        self.0.strong_count() > 0
    }
}

/// A view of an object's memory, released when dropped.
pub struct Buffer {
    pub view: Box<ffi::Py_buffer>,
}

impl Drop for Buffer {
    fn drop(&mut self) {
        let p = self.view.obj as *const Kind;
        if p.is_null() {
            return;
        }
        // SAFETY: the exporter left a pointer that it counted
        unsafe {
            if let Kind::Instance(i) = &*p {
                if let Some(r) = (i.releasebuffer)() {
                    Arc::increment_strong_count(p);
                    let o = Obj(Arc::from_raw(p));
                    r(&o, &mut *self.view);
                }
            }
            Arc::decrement_strong_count(p);
        }
    }
}

pub mod ffi {
    use std::os::raw::{c_char, c_int, c_void};

    #[repr(C)]
    pub struct PyObject {
        _p: [u8; 0],
    }
    pub type Py_ssize_t = isize;

    #[repr(C)]
    pub struct Py_buffer {
        pub buf: *mut c_void,
        pub obj: *mut PyObject,
        pub len: Py_ssize_t,
        pub itemsize: Py_ssize_t,
        pub readonly: c_int,
        pub ndim: c_int,
        pub format: *mut c_char,
        pub shape: *mut Py_ssize_t,
        pub strides: *mut Py_ssize_t,
        pub suboffsets: *mut Py_ssize_t,
        pub internal: *mut c_void,
    }
    impl Py_buffer {
        pub const fn new() -> Self {
            use std::ptr::null_mut;
            Py_buffer {
                buf: null_mut(),
                obj: null_mut(),
                len: 0,
                itemsize: 0,
                readonly: 0,
                ndim: 0,
                format: null_mut(),
                shape: null_mut(),
                strides: null_mut(),
                suboffsets: null_mut(),
                internal: null_mut(),
            }
        }
    }
    pub const PyBUF_SIMPLE: c_int = 0;
    pub const PyBUF_WRITABLE: c_int = 1;
    pub const PyBUF_FORMAT: c_int = 4;
    pub const PyBUF_ND: c_int = 8;
    pub const PyBUF_STRIDES: c_int = 0x10 | PyBUF_ND;
    pub const PyBUF_C_CONTIGUOUS: c_int = 0x20 | PyBUF_STRIDES;
    pub const PyBUF_F_CONTIGUOUS: c_int = 0x40 | PyBUF_STRIDES;
    pub const PyBUF_ANY_CONTIGUOUS: c_int = 0x80 | PyBUF_STRIDES;
    pub const PyBUF_INDIRECT: c_int = 0x100 | PyBUF_STRIDES;
    pub const PyBUF_FULL_RO: c_int = PyBUF_INDIRECT | PyBUF_FORMAT;

    /// # Safety
    /// `o` is an object.
    pub unsafe fn Py_INCREF(o: *mut PyObject) {
        std::sync::Arc::increment_strong_count(o as *const super::Kind);
    }
    /// # Safety
    /// `o` is an object.
    pub unsafe fn Py_DECREF(o: *mut PyObject) {
        std::sync::Arc::decrement_strong_count(o as *const super::Kind);
    }
    /// # Safety
    /// `o` is an object.
    pub unsafe fn Py_NewRef(o: *mut PyObject) -> *mut PyObject {
        Py_INCREF(o);
        o
    }
}

#[derive(Clone)]
pub struct PyErr {
    class: &'static str,
    msg: String,
}

impl PyErr {
    pub fn of(class: &'static str, msg: impl fmt::Display) -> Self {
        PyErr { class, msg: msg.to_string() }
    }
    pub fn class(&self) -> &'static str {
        self.class
    }
    pub fn message(&self) -> &str {
        &self.msg
    }
}

impl fmt::Display for PyErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}: {}", self.class, self.msg)
    }
}

impl fmt::Debug for PyErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}({:?})", self.class, self.msg)
    }
}

impl std::error::Error for PyErr {}

impl From<std::convert::Infallible> for PyErr {
    fn from(x: std::convert::Infallible) -> Self {
        match x {}
    }
}

pub mod exceptions {
    macro_rules! exceptions {
        ($($t:ident $n:literal)*) => {$(
            pub struct $t;
            impl $t {
                pub fn new_err(msg: impl std::fmt::Display) -> crate::PyErr {
                    crate::PyErr::of($n, msg)
                }
            }
        )*};
    }
    exceptions! {
        PyException "Exception" PyTypeError "TypeError" PyValueError "ValueError" PyIndexError "IndexError"
        PyKeyError "KeyError" PyAttributeError "AttributeError" PyRuntimeError "RuntimeError"
        PyFileNotFoundError "FileNotFoundError" PyOSError "OSError" PyIOError "OSError"
        PyPermissionError "PermissionError" PyOverflowError "OverflowError" PyRuntimeWarning "RuntimeWarning"
        PyNotImplementedError "NotImplementedError" PyBufferError "BufferError" PyMemoryError "MemoryError"
        PyStopIteration "StopIteration" PyLookupError "LookupError" PyArithmeticError "ArithmeticError"
    }
}

#[macro_export]
macro_rules! create_exception {
    ($m:expr, $n:ident, $b:ty) => {
        $crate::create_exception!($m, $n, $b, "");
    };
    ($m:expr, $n:ident, $b:ty, $d:expr) => {
        #[doc = $d]
        pub struct $n;
        impl $n {
            pub fn new_err(msg: impl ::std::fmt::Display) -> $crate::PyErr {
                $crate::PyErr::of(stringify!($n), msg)
            }
        }
    };
}

#[macro_export]
macro_rules! intern {
    ($py:expr, $s:expr) => {
        &$crate::types::PyString::new($py, $s)
    };
}

#[macro_export]
macro_rules! wrap_pyfunction {
    ($f:path) => {{
        let _ = &$f;
        stringify!($f)
    }};
    ($f:path, $m:expr) => {{
        let _ = (&$f, &$m);
        stringify!($f)
    }};
}

#[derive(Clone, Copy)]
pub struct Python<'py>(PhantomData<&'py ()>);

static MODULES: Mutex<Vec<(String, Obj)>> = Mutex::new(vec![]);

/// Make a module importable.
pub fn set_module(name: &str, m: Obj) {
    let mut all = MODULES.lock().unwrap();
    all.retain(|x| x.0 != name);
    all.push((name.to_string(), m));
}

impl<'py> Python<'py> {
    pub fn attach<R>(f: impl for<'p> FnOnce(Python<'p>) -> R) -> R {
        f(Python(PhantomData))
    }
    pub fn with_gil<R>(f: impl for<'p> FnOnce(Python<'p>) -> R) -> R {
        f(Python(PhantomData))
    }
    pub fn detach<R>(self, f: impl FnOnce() -> R) -> R {
        f()
    }
    pub fn import(self, name: impl Name) -> PyResult<Bound<'py, PyModule>> {
        let name = name.name();
        if name == "warnings" {
            return Ok(Bound::of(Obj::module("warnings")));
        }
        let all = MODULES.lock().unwrap();
        match all.iter().find(|m| m.0 == name) {
            Some(m) => Ok(Bound::of(m.1.clone())),
            None => Err(PyErr::of("ModuleNotFoundError", name)),
        }
    }
    #[allow(non_snake_case)]
    pub fn None(self) -> Py<PyAny> {
        Py::of(Obj::none())
    }
    pub fn get_type<T: rt::PyClass + rt::PyMethods>(self) -> Bound<'py, types::PyType> {
        Bound::of(Obj::new(Kind::Class(ClassInfo { name: T::NAME, methods: T::methods })))
    }
}

#[derive(Debug)]
pub struct PyAny(());
pub use types::PyModule;

#[repr(transparent)]
pub struct Py<T>(Obj, PhantomData<fn() -> T>);

#[repr(transparent)]
pub struct Bound<'py, T>(Obj, PhantomData<(&'py (), fn() -> T)>);

pub struct Borrowed<'a, 'py, T>(&'a Bound<'py, T>);

impl<T> Clone for Borrowed<'_, '_, T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for Borrowed<'_, '_, T> {}
impl<'py, T> Deref for Borrowed<'_, 'py, T> {
    type Target = Bound<'py, T>;
    fn deref(&self) -> &Self::Target {
        self.0
    }
}
impl<'a, 'py, T> Borrowed<'a, 'py, T> {
    pub fn of(o: &'a Obj) -> Self {
        // SAFETY: `Bound` is transparent
        Borrowed(unsafe { &*(o as *const Obj as *const Bound<'py, T>) })
    }
    pub fn obj(self) -> &'a Obj {
        &self.0 .0
    }
    pub fn py(self) -> Python<'py> {
        Python(PhantomData)
    }
    pub fn extract<V: FromPyObject<'a, 'py>>(self) -> Result<V, V::Error> {
        V::extract(Borrowed::of(&self.0 .0))
    }
    pub fn to_owned(self) -> Bound<'py, T> {
        self.0.clone()
    }
}

impl<T> fmt::Debug for Py<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T> fmt::Debug for Bound<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T> Clone for Bound<'_, T> {
    fn clone(&self) -> Self {
        Self::of(self.0.clone())
    }
}

/// The name of an attribute.
pub trait Name {
    fn name(&self) -> String;
}
impl Name for &str {
    fn name(&self) -> String {
        self.to_string()
    }
}
impl Name for String {
    fn name(&self) -> String {
        self.clone()
    }
}
impl Name for &String {
    fn name(&self) -> String {
        self.to_string()
    }
}
impl Name for Bound<'_, types::PyString> {
    fn name(&self) -> String {
        match self.0.kind() {
            Kind::Str(s) => s.clone(),
            _ => String::new(),
        }
    }
}
impl Name for &Bound<'_, types::PyString> {
    fn name(&self) -> String {
        (*self).name()
    }
}

/// Positional arguments.
pub trait IntoArgs {
    fn into_args(self) -> PyResult<Vec<Obj>>;
}
impl IntoArgs for () {
    fn into_args(self) -> PyResult<Vec<Obj>> {
        Ok(vec![])
    }
}
macro_rules! args {
    ($($t:ident $i:tt),+) => {
        impl<$($t: IntoPyObject<'static>),+> IntoArgs for ($($t,)+) {
            fn into_args(self) -> PyResult<Vec<Obj>> {
                Ok(vec![$(rt::into_obj(self.$i, rt::token())?),+])
            }
        }
    };
}
args!(A 0);
args!(A 0, B 1);
args!(A 0, B 1, C 2);
args!(A 0, B 1, C 2, D 3);
impl IntoArgs for Bound<'_, types::PyTuple> {
    fn into_args(self) -> PyResult<Vec<Obj>> {
        match self.0.kind() {
            Kind::Tuple(t) => Ok(t.clone()),
            _ => Err(exceptions::PyTypeError::new_err("a tuple is required")),
        }
    }
}
impl IntoArgs for &Bound<'_, types::PyTuple> {
    fn into_args(self) -> PyResult<Vec<Obj>> {
        self.clone().into_args()
    }
}

fn arguments(pos: impl IntoArgs, kw: Option<&Bound<'_, types::PyDict>>) -> PyResult<rt::Args> {
    let mut a = rt::Args { pos: pos.into_args()?, kw: vec![] };
    if let Some(d) = kw {
        if let Kind::Dict(d) = d.0.kind() {
            for (k, v) in d.lock().unwrap().iter() {
                a.kw.push((rt::extract::<String>(k)?, v.clone()));
            }
        }
    }
    Ok(a)
}

impl<'py, T> Bound<'py, T> {
    pub fn of(o: Obj) -> Self {
        Bound(o, PhantomData)
    }
    pub fn obj(&self) -> &Obj {
        &self.0
    }
    pub fn into_obj(self) -> Obj {
        self.0
    }
    pub fn py(&self) -> Python<'py> {
        Python(PhantomData)
    }
    pub fn as_borrowed(&self) -> Borrowed<'_, 'py, T> {
        Borrowed(self)
    }
    pub fn as_any(&self) -> &Bound<'py, PyAny> {
        Borrowed::of(&self.0).0
    }
    pub fn into_any(self) -> Bound<'py, PyAny> {
        Bound::of(self.0)
    }
    pub fn as_unbound(&self) -> &Py<T> {
        // SAFETY: both are transparent
        unsafe { &*(&self.0 as *const Obj as *const Py<T>) }
    }
    pub fn unbind(self) -> Py<T> {
        Py::of(self.0)
    }
    pub fn is_none(&self) -> bool {
        self.0.is_none()
    }
    pub fn as_ptr(&self) -> *mut ffi::PyObject {
        Arc::as_ptr(&self.0 .0) as *mut ffi::PyObject
    }
    pub fn extract<'a, V: FromPyObject<'a, 'py>>(&'a self) -> Result<V, V::Error> {
        V::extract(Borrowed::of(&self.0))
    }
    pub fn hasattr(&self, n: impl Name) -> PyResult<bool> {
        Ok(self.0.has(&n.name()))
    }
    pub fn getattr(&self, n: impl Name) -> PyResult<Bound<'py, PyAny>> {
        self.0.attr(&n.name()).map(Bound::of)
    }
    pub fn is_callable(&self) -> bool {
        self.0.has("__call__")
    }
    pub fn call(&self, a: impl IntoArgs, kw: Option<&Bound<'py, types::PyDict>>) -> PyResult<Bound<'py, PyAny>> {
        self.0.call(arguments(a, kw)?).map(Bound::of)
    }
    pub fn call0(&self) -> PyResult<Bound<'py, PyAny>> {
        self.call((), None)
    }
    pub fn call1(&self, a: impl IntoArgs) -> PyResult<Bound<'py, PyAny>> {
        self.call(a, None)
    }
    pub fn call_method(&self, n: impl Name, a: impl IntoArgs, kw: Option<&Bound<'py, types::PyDict>>) -> PyResult<Bound<'py, PyAny>> {
        self.0.call_method(&n.name(), arguments(a, kw)?).map(Bound::of)
    }
    pub fn call_method0(&self, n: impl Name) -> PyResult<Bound<'py, PyAny>> {
        self.call_method(n, (), None)
    }
    pub fn call_method1(&self, n: impl Name, a: impl IntoArgs) -> PyResult<Bound<'py, PyAny>> {
        self.call_method(n, a, None)
    }
}

impl<'py> Bound<'py, types::PyDict> {
    pub fn set_item(&self, k: impl IntoPyObject<'py>, v: impl IntoPyObject<'py>) -> PyResult<()> {
        let (k, v) = (rt::into_obj(k, self.py())?, rt::into_obj(v, self.py())?);
        if let Kind::Dict(d) = self.0.kind() {
            let mut d = d.lock().unwrap();
            match d.iter_mut().find(|x| x.0.same(&k)) {
                Some(x) => x.1 = v,
                None => d.push((k, v)),
            }
        }
        Ok(())
    }
}

impl Bound<'_, PyModule> {
    fn put(&self, n: &str, o: Obj) {
        if let Kind::Module { attrs, .. } = self.0.kind() {
            attrs.lock().unwrap().push((n.to_string(), o));
        }
    }
    pub fn add_class<T: rt::PyClass + rt::PyMethods>(&self) -> PyResult<()> {
        self.put(T::NAME, self.py().get_type::<T>().into_obj());
        Ok(())
    }
    pub fn add_wrapped(&self, name: &str) -> PyResult<()> {
        self.put(name, Obj::none());
        Ok(())
    }
    pub fn add_function(&self, name: &str) -> PyResult<()> {
        self.add_wrapped(name)
    }
    pub fn add<'p>(&self, name: &str, v: impl IntoPyObject<'p>) -> PyResult<()> {
        self.put(name, rt::into_obj(v, Python(PhantomData))?);
        Ok(())
    }
}

impl<T> Py<T> {
    pub fn of(o: Obj) -> Self {
        Py(o, PhantomData)
    }
    pub fn obj(&self) -> &Obj {
        &self.0
    }
    pub fn bind<'py>(&self, _py: Python<'py>) -> &Bound<'py, T> {
        Borrowed::of(&self.0).0
    }
    pub fn into_bound(self, _py: Python<'_>) -> Bound<'_, T> {
        Bound::of(self.0)
    }
    pub fn clone_ref(&self, _py: Python<'_>) -> Self {
        Py::of(self.0.clone())
    }
    pub fn extract<'a, 'py: 'a, V: FromPyObject<'a, 'py>>(&'a self, _py: Python<'py>) -> Result<V, V::Error> {
        V::extract(Borrowed::of(&self.0))
    }
    pub fn getattr(&self, _py: Python<'_>, n: impl Name) -> PyResult<Py<PyAny>> {
        self.0.attr(&n.name()).map(Py::of)
    }
    pub fn call(&self, _py: Python<'_>, a: impl IntoArgs, kw: Option<&Bound<'_, types::PyDict>>) -> PyResult<Py<PyAny>> {
        self.0.call(arguments(a, kw)?).map(Py::of)
    }
    pub fn call0(&self, py: Python<'_>) -> PyResult<Py<PyAny>> {
        self.call(py, (), None)
    }
    pub fn call1(&self, py: Python<'_>, a: impl IntoArgs) -> PyResult<Py<PyAny>> {
        self.call(py, a, None)
    }
    pub fn call_method(&self, _py: Python<'_>, n: impl Name, a: impl IntoArgs, kw: Option<&Bound<'_, types::PyDict>>) -> PyResult<Py<PyAny>> {
        self.0.call_method(&n.name(), arguments(a, kw)?).map(Py::of)
    }
    pub fn call_method0(&self, py: Python<'_>, n: impl Name) -> PyResult<Py<PyAny>> {
        self.call_method(py, n, (), None)
    }
    pub fn call_method1(&self, py: Python<'_>, n: impl Name, a: impl IntoArgs) -> PyResult<Py<PyAny>> {
        self.call_method(py, n, a, None)
    }
}

/// A borrowed instance.
pub struct PyRef<'py, T>(Obj, PhantomData<(&'py (), fn() -> T)>);

impl<T: 'static> PyRef<'_, T> {
    pub fn of(o: &Obj) -> PyResult<Self> {
        o.instance_ref::<T>()?;
        Ok(PyRef(o.clone(), PhantomData))
    }
    pub fn as_ptr(&self) -> *mut ffi::PyObject {
        Arc::as_ptr(&self.0 .0) as *mut ffi::PyObject
    }
    /// A pointer with a reference of its own.
    pub fn into_ptr(self) -> *mut ffi::PyObject {
        Arc::into_raw(self.0 .0.clone()) as *mut ffi::PyObject
    }
}
impl<T: 'static> Deref for PyRef<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0.instance_ref::<T>().unwrap()
    }
}

pub trait IntoPyObject<'py>: Sized {
    type Target;
    type Output: Into<Obj>;
    type Error: Into<PyErr>;
    fn into_pyobject(self, py: Python<'py>) -> Result<Self::Output, Self::Error>;
    #[doc(hidden)]
    fn sequence(v: Vec<Self>, py: Python<'py>) -> PyResult<Obj> {
        Ok(Obj::list(v.into_iter().map(|x| rt::into_obj(x, py)).collect::<PyResult<_>>()?))
    }
}

impl<T> From<Bound<'_, T>> for Obj {
    fn from(b: Bound<'_, T>) -> Obj {
        b.0
    }
}
impl<T> From<Borrowed<'_, '_, T>> for Obj {
    fn from(b: Borrowed<'_, '_, T>) -> Obj {
        b.0 .0.clone()
    }
}

pub trait IntoPyObjectExt<'py>: IntoPyObject<'py> {
    fn into_bound_py_any(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        rt::into_obj(self, py).map(Bound::of)
    }
    fn into_py_any(self, py: Python<'py>) -> PyResult<Py<PyAny>> {
        rt::into_obj(self, py).map(Py::of)
    }
}
impl<'py, T: IntoPyObject<'py>> IntoPyObjectExt<'py> for T {}

macro_rules! into {
    ($([$($g:tt)*] $t:ty, |$s:ident, $py:ident| $e:expr;)*) => {$(
        impl<'py, $($g)*> IntoPyObject<'py> for $t {
            type Target = PyAny;
            type Output = Bound<'py, PyAny>;
            type Error = PyErr;
            fn into_pyobject(self, $py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
                let _ = $py;
                let $s = self;
                Ok(Bound::of($e))
            }
        }
    )*};
}
macro_rules! ints {
    ($($t:ty)*) => {$(
        into! { [] $t, |x, py| Obj::new(Kind::Int(x as i128)); [] &$t, |x, py| Obj::new(Kind::Int(*x as i128)); }
        impl<'py> FromPyObject<'_, 'py> for $t {
            type Error = PyErr;
            fn extract(o: Borrowed<'_, 'py, PyAny>) -> PyResult<Self> {
                let i = match o.obj().kind() {
                    Kind::Int(i) | Kind::Member { value: i, .. } => *i,
                    Kind::Bool(b) => *b as i128,
                    _ => return Err(exceptions::PyTypeError::new_err(format!("'{}' object cannot be interpreted as an integer", o.obj().type_name()))),
                };
                <$t>::try_from(i).map_err(|_| exceptions::PyOverflowError::new_err("out of range integral type conversion attempted"))
            }
        }
    )*};
}
ints!(u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);

// sequences of bytes are bytes
impl<'py> IntoPyObject<'py> for u8 {
    type Target = PyAny;
    type Output = Bound<'py, PyAny>;
    type Error = PyErr;
    fn into_pyobject(self, _: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        Ok(Bound::of(Obj::int(self)))
    }
    fn sequence(v: Vec<Self>, _: Python<'py>) -> PyResult<Obj> {
        Ok(Obj::bytes(v))
    }
}
impl<'py> IntoPyObject<'py> for &u8 {
    type Target = PyAny;
    type Output = Bound<'py, PyAny>;
    type Error = PyErr;
    fn into_pyobject(self, _: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        Ok(Bound::of(Obj::int(*self)))
    }
    fn sequence(v: Vec<Self>, _: Python<'py>) -> PyResult<Obj> {
        Ok(Obj::bytes(v.into_iter().copied().collect::<Vec<u8>>()))
    }
}
impl<'py> FromPyObject<'_, 'py> for u8 {
    type Error = PyErr;
    fn extract(o: Borrowed<'_, 'py, PyAny>) -> PyResult<Self> {
        u8::try_from(o.extract::<i128>()?).map_err(|_| exceptions::PyOverflowError::new_err("out of range integral type conversion attempted"))
    }
}

into! {
    [] bool, |x, py| Obj::new(Kind::Bool(x));
    [] &bool, |x, py| Obj::new(Kind::Bool(*x));
    [] f64, |x, py| Obj::float(x);
    [] &f64, |x, py| Obj::float(*x);
    [] f32, |x, py| Obj::float(x as f64);
    [] &f32, |x, py| Obj::float(*x as f64);
    [] char, |x, py| Obj::str(&x.to_string());
    [] &str, |x, py| Obj::str(x);
    [] &&str, |x, py| Obj::str(x);
    [] String, |x, py| Obj::str(&x);
    [] &String, |x, py| Obj::str(x);
    [] (), |_x, py| Obj::tuple(vec![]);
    [] PyErr, |x, py| Obj::new(Kind::Exception(x));
    [T] Bound<'py, T>, |x, py| x.0;
    [T] &Bound<'py, T>, |x, py| x.0.clone();
    [T] Py<T>, |x, py| x.0;
    [T] &Py<T>, |x, py| x.0.clone();
    [T: IntoPyObject<'py>] Option<T>, |x, py| match x { Some(x) => rt::into_obj(x, py)?, None => Obj::none() };
    [T: IntoPyObject<'py>] Vec<T>, |x, py| T::sequence(x, py)?;
    [T: IntoPyObject<'py>, const N: usize] [T; N], |x, py| T::sequence(x.into_iter().collect(), py)?;
    [A: IntoPyObject<'py>, B: IntoPyObject<'py>] (A, B), |x, py| Obj::tuple(vec![rt::into_obj(x.0, py)?, rt::into_obj(x.1, py)?]);
    [A: IntoPyObject<'py>, B: IntoPyObject<'py>, C: IntoPyObject<'py>] (A, B, C), |x, py|
        Obj::tuple(vec![rt::into_obj(x.0, py)?, rt::into_obj(x.1, py)?, rt::into_obj(x.2, py)?]);
    [K: IntoPyObject<'py>, V: IntoPyObject<'py>, H] HashMap<K, V, H>, |x, py|
        Obj::dict(x.into_iter().map(|(k, v)| Ok((rt::into_obj(k, py)?, rt::into_obj(v, py)?))).collect::<PyResult<_>>()?);
    [K: IntoPyObject<'py>, V: IntoPyObject<'py>] std::collections::BTreeMap<K, V>, |x, py|
        Obj::dict(x.into_iter().map(|(k, v)| Ok((rt::into_obj(k, py)?, rt::into_obj(v, py)?))).collect::<PyResult<_>>()?);
}
impl<'a, 'py, T> IntoPyObject<'py> for &'a [T]
where
    &'a T: IntoPyObject<'py>,
{
    type Target = PyAny;
    type Output = Bound<'py, PyAny>;
    type Error = PyErr;
    fn into_pyobject(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        <&'a T>::sequence(self.iter().collect(), py).map(Bound::of)
    }
}
impl<'a, 'py, T> IntoPyObject<'py> for &'a Vec<T>
where
    &'a T: IntoPyObject<'py>,
{
    type Target = PyAny;
    type Output = Bound<'py, PyAny>;
    type Error = PyErr;
    fn into_pyobject(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        <&'a T>::sequence(self.iter().collect(), py).map(Bound::of)
    }
}

pub trait FromPyObject<'a, 'py>: Sized {
    type Error: Into<PyErr>;
    fn extract(obj: Borrowed<'a, 'py, PyAny>) -> Result<Self, Self::Error>;
}

fn type_err(o: &Obj, what: &str) -> PyErr {
    exceptions::PyTypeError::new_err(format!("'{}' object cannot be converted to '{what}'", o.type_name()))
}

macro_rules! from {
    ($([$($g:tt)*] $t:ty, |$o:ident| $e:expr;)*) => {$(
        impl<'a, 'py, $($g)*> FromPyObject<'a, 'py> for $t {
            type Error = PyErr;
            fn extract($o: Borrowed<'a, 'py, PyAny>) -> PyResult<Self> {
                $e
            }
        }
    )*};
}
from! {
    [] f64, |o| match o.obj().kind() {
        Kind::Float(x) => Ok(*x),
        Kind::Int(i) | Kind::Member { value: i, .. } => Ok(*i as f64),
        Kind::Bool(b) => Ok(*b as u8 as f64),
        _ => Err(type_err(o.obj(), "float")),
    };
    [] f32, |o| o.extract::<f64>().map(|x| x as f32);
    [] bool, |o| match o.obj().kind() { Kind::Bool(b) => Ok(*b), _ => Err(type_err(o.obj(), "bool")) };
    [] String, |o| match o.obj().kind() { Kind::Str(s) => Ok(s.clone()), _ => Err(type_err(o.obj(), "str")) };
    [] &'a str, |o| match o.obj().kind() { Kind::Str(s) => Ok(s.as_str()), _ => Err(type_err(o.obj(), "str")) };
    [] &'a [u8], |o| match o.obj().kind() { Kind::Bytes(s) => Ok(&s[..]), _ => Err(type_err(o.obj(), "bytes")) };
    [T] Bound<'py, T>, |o| Ok(Bound::of(o.obj().clone()));
    [T] Py<T>, |o| Ok(Py::of(o.obj().clone()));
    [T: FromPyObject<'a, 'py>] Option<T>, |o| if o.obj().is_none() { Ok(None) } else { o.extract::<T>().map(Some).map_err(Into::into) };
    [T: for<'x> FromPyObject<'x, 'py>] Vec<T>, |o| {
        if matches!(o.obj().kind(), Kind::Str(_)) {
            return Err(exceptions::PyTypeError::new_err("Can't extract `str` to `Vec`"));
        }
        items(o.obj(), "Sequence")?.iter().map(|x| T::extract(Borrowed::of(x)).map_err(Into::into)).collect()
    };
    [T: for<'x> FromPyObject<'x, 'py>, const N: usize] [T; N], |o| {
        let v: Vec<T> = o.extract()?;
        let n = v.len();
        v.try_into().map_err(|_| exceptions::PyValueError::new_err(format!("expected a sequence of length {N} (got {n})")))
    };
    [A: for<'x> FromPyObject<'x, 'py>, B: for<'x> FromPyObject<'x, 'py>] (A, B), |o| {
        let v = tuple(o.obj(), 2)?;
        Ok((A::extract(Borrowed::of(&v[0])).map_err(Into::into)?, B::extract(Borrowed::of(&v[1])).map_err(Into::into)?))
    };
    [A: for<'x> FromPyObject<'x, 'py>, B: for<'x> FromPyObject<'x, 'py>, C: for<'x> FromPyObject<'x, 'py>] (A, B, C), |o| {
        let v = tuple(o.obj(), 3)?;
        Ok((
            A::extract(Borrowed::of(&v[0])).map_err(Into::into)?,
            B::extract(Borrowed::of(&v[1])).map_err(Into::into)?,
            C::extract(Borrowed::of(&v[2])).map_err(Into::into)?,
        ))
    };
    [K: for<'x> FromPyObject<'x, 'py> + Eq + Hash, V: for<'x> FromPyObject<'x, 'py>, H: std::hash::BuildHasher + Default] HashMap<K, V, H>, |o| {
        let Kind::Dict(d) = o.obj().kind() else { return Err(type_err(o.obj(), "dict")) };
        let d = d.lock().unwrap();
        d.iter()
            .map(|(k, v)| Ok((K::extract(Borrowed::of(k)).map_err(Into::into)?, V::extract(Borrowed::of(v)).map_err(Into::into)?)))
            .collect()
    };
}

fn items(o: &Obj, what: &str) -> PyResult<Vec<Obj>> {
    match o.kind() {
        Kind::List(v) | Kind::Tuple(v) => Ok(v.clone()),
        Kind::Bytes(b) => Ok(b.iter().map(|&x| Obj::int(x)).collect()),
        _ => Err(type_err(o, what)),
    }
}

fn tuple(o: &Obj, n: usize) -> PyResult<&[Obj]> {
    match o.kind() {
        Kind::Tuple(v) if v.len() == n => Ok(v),
        Kind::Tuple(v) => Err(exceptions::PyValueError::new_err(format!("expected tuple of length {n}, but got tuple of length {}", v.len()))),
        _ => Err(type_err(o, "PyTuple")),
    }
}

pub mod types {
    use super::*;

    pub struct PyModule(());
    pub struct PyType(());
    pub struct PyDict(());
    pub struct PyTuple(());
    pub struct PyString(());
    pub struct PyList(());
    pub use super::PyAny;

    impl PyDict {
        pub fn new(_py: Python<'_>) -> Bound<'_, PyDict> {
            Bound::of(Obj::dict(vec![]))
        }
    }
    impl PyTuple {
        pub fn new<'py, T: IntoPyObject<'py>>(py: Python<'py>, v: impl IntoIterator<Item = T>) -> PyResult<Bound<'py, PyTuple>> {
            Ok(Bound::of(Obj::tuple(v.into_iter().map(|x| rt::into_obj(x, py)).collect::<PyResult<_>>()?)))
        }
        pub fn empty(_py: Python<'_>) -> Bound<'_, PyTuple> {
            Bound::of(Obj::tuple(vec![]))
        }
    }
    impl PyList {
        pub fn new<'py, T: IntoPyObject<'py>>(py: Python<'py>, v: impl IntoIterator<Item = T>) -> PyResult<Bound<'py, PyList>> {
            Ok(Bound::of(Obj::list(v.into_iter().map(|x| rt::into_obj(x, py)).collect::<PyResult<_>>()?)))
        }
        pub fn empty(_py: Python<'_>) -> Bound<'_, PyList> {
            Bound::of(Obj::list(vec![]))
        }
    }
    impl PyString {
        pub fn new<'py>(_py: Python<'py>, s: &str) -> Bound<'py, PyString> {
            Bound::of(Obj::str(s))
        }
    }
}

pub mod sync {
    use super::Python;
    use std::sync::OnceLock;

    pub struct PyOnceLock<T>(OnceLock<T>);
    pub use PyOnceLock as GILOnceCell;

    impl<T> PyOnceLock<T> {
        #[allow(clippy::new_without_default)]
        pub const fn new() -> Self {
            PyOnceLock(OnceLock::new())
        }
        pub fn get(&self, _py: Python<'_>) -> Option<&T> {
            self.0.get()
        }
        pub fn get_or_init(&self, _py: Python<'_>, f: impl FnOnce() -> T) -> &T {
            self.0.get_or_init(f)
        }
        pub fn get_or_try_init<E>(&self, _py: Python<'_>, f: impl FnOnce() -> Result<T, E>) -> Result<&T, E> {
            if self.0.get().is_none() {
                let _ = self.0.set(f()?);
            }
            Ok(self.0.get().unwrap())
        }
    }
}

/// What the macros and the harness use.
pub mod rt {
    use super::*;

    pub type Eq = fn(&Obj, &Obj) -> PyResult<bool>;
    pub type GetBuffer = fn(&Obj, *mut ffi::Py_buffer, std::os::raw::c_int) -> PyResult<()>;
    pub type ReleaseBuffer = fn(&Obj, *mut ffi::Py_buffer);

    #[derive(Clone, Copy, PartialEq, Debug)]
    pub enum How {
        Getter,
        Method,
        Class,
        New,
    }

    pub struct Method {
        pub name: &'static str,
        pub kind: How,
        pub call: fn(&Obj, &Args) -> PyResult<Obj>,
    }

    #[derive(Default, Clone, Debug)]
    pub struct Args {
        pub pos: Vec<Obj>,
        pub kw: Vec<(String, Obj)>,
    }

    impl Args {
        pub fn pos(pos: Vec<Obj>) -> Args {
            Args { pos, kw: vec![] }
        }
        pub fn kw(mut self, n: &str, v: Obj) -> Args {
            self.kw.push((n.into(), v));
            self
        }
        pub fn get(&self, pos: Option<usize>, name: &str) -> Option<Obj> {
            if let Some(o) = pos.and_then(|p| self.pos.get(p)) {
                return Some(o.clone());
            }
            self.kw.iter().find(|k| k.0 == name).map(|k| k.1.clone())
        }
        pub fn check(&self, npos: usize, names: &[&str]) -> PyResult<()> {
            if self.pos.len() > npos {
                return Err(exceptions::PyTypeError::new_err(format!("takes {npos} positional arguments but {} were given", self.pos.len())));
            }
            for (k, _) in &self.kw {
                if !names.contains(&k.as_str()) {
                    return Err(exceptions::PyTypeError::new_err(format!("got an unexpected keyword argument '{k}'")));
                }
            }
            Ok(())
        }
    }

    pub fn token() -> Python<'static> {
        Python(PhantomData)
    }
    pub fn into_obj<'py, T: IntoPyObject<'py>>(v: T, py: Python<'py>) -> PyResult<Obj> {
        v.into_pyobject(py).map(Into::into).map_err(Into::into)
    }
    pub fn extract<'a, T: FromPyObject<'a, 'static>>(o: &'a Obj) -> PyResult<T> {
        T::extract(Borrowed::of(o)).map_err(Into::into)
    }
    pub fn missing(n: &str) -> PyErr {
        exceptions::PyTypeError::new_err(format!("missing 1 required argument: '{n}'"))
    }

    pub trait PyClass: Send + 'static {
        const NAME: &'static str;
        fn fields() -> Vec<Method>;
        fn eq() -> Option<Eq>;
    }
    pub trait PyMethods {
        fn methods() -> Vec<Method>;
        fn getbuffer() -> Option<GetBuffer>;
        fn releasebuffer() -> Option<ReleaseBuffer>;
    }
}

pub mod prelude {
    pub use crate::types::PyModule;
    pub use crate::{pyclass, pyfunction, pymethods, pymodule, wrap_pyfunction};
    pub use crate::{Borrowed, Bound, Py, PyAny, PyErr, PyRef, PyResult, Python};
    pub use crate::{FromPyObject, IntoPyObject};
    pub use pyo3_macros::{FromPyObject, IntoPyObject};
}
