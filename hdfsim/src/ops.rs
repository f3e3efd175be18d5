//! What a program does with HDF5, for elements of any type.
use crate::elem::Elem;
use hdf5::{Container, Conversion, Group, Hyperslab, Location, Selection, SliceOrIndex};
use ndarray::{ArrayD, ArrayViewD, IxDyn};
use serde::{Deserialize, Serialize};
use std::marker::PhantomData;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Layout {
    Default,
    Compact,
    Contiguous,
    Chunked(Vec<usize>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum How {
    Whole,
    Raw,
    Scalar,
    /// As an array of exactly this many dimensions.
    Fixed,
    /// Start, step, count, block of each dimension.
    Slice(Vec<(usize, usize, usize, usize)>),
    /// These elements of a one-dimensional dataset.
    Points(Vec<usize>),
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Conv {
    Soft,
    Hard,
    NoOp,
}
impl Conv {
    fn get(self) -> Conversion {
        match self {
            Conv::Soft => Conversion::Soft,
            Conv::Hard => Conversion::Hard,
            Conv::NoOp => Conversion::NoOp,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct New {
    pub shape: Vec<usize>,
    pub resizable: bool,
    pub layout: Layout,
    /// Shuffle, deflate, fletcher32.
    pub filters: (bool, Option<u8>, bool),
    pub packed: bool,
    /// Values, by seed.
    pub data: Option<u64>,
    pub fill: Option<u64>,
    pub conv: Conv,
}
type R<T> = hdf5::Result<T>;
pub trait Ops: Sync {
    fn create(&self, at: &Group, name: &str, n: &New, stored: Option<&str>, data: &[u64]) -> R<()>;
    fn create_attr(&self, at: &Location, name: &str, n: &New, stored: Option<&str>, data: &[u64]) -> R<()>;
    fn write(&self, at: &Container, shape: &[usize], how: &How, conv: Conv, data: &[u64]) -> R<()>;
    fn read(&self, at: &Container, how: &How, conv: Conv) -> R<(Vec<usize>, Vec<u64>)>;
    fn describe(&self, at: &Container) -> R<String>;
    fn fill(&self, at: &hdf5::Dataset) -> R<Option<Vec<u64>>>;
    fn descriptor(&self) -> hdf5::types::TypeDescriptor;
    /// What is read back of what is written.
    fn normal(&self, data: &[u64]) -> Vec<u64>;
}
pub struct Of<E>(PhantomData<fn(E)>);
impl<E> Default for Of<E> {
    fn default() -> Self {
        Of(PhantomData)
    }
}
impl<E: Elem> Of<E> {
    fn make(&self, data: &[u64]) -> Vec<E> {
        let mut v: Vec<E> = data.chunks(E::shape().len()).map(E::make).collect();
        crate::elem::clear_padding(&mut v);
        v
    }
    fn floats<'a>(&self, v: impl Iterator<Item = &'a E>) -> Vec<u64> {
        let mut out = vec![];
        v.for_each(|x| x.floats(&mut out));
        out
    }
}
fn view<'a, E>(shape: &[usize], v: &'a [E]) -> R<ArrayViewD<'a, E>> {
    ArrayViewD::from_shape(IxDyn(shape), v).map_err(|e| hdf5::Error::from(format!("shape: {e}")))
}
fn slab(s: &[(usize, usize, usize, usize)]) -> Hyperslab {
    let v: Vec<SliceOrIndex> = s
        .iter()
        .map(|(start, step, count, block)| if *count == 0 { SliceOrIndex::Index(*start) } else { SliceOrIndex::SliceCount { start: *start, step: *step, count: *count, block: *block } })
        .collect();
    Hyperslab::from(v)
}
/// Shape of what a selection has.
pub fn selected(how: &How, shape: &[usize]) -> Vec<usize> {
    match how {
        How::Slice(s) => s.iter().filter(|x| x.2 > 0).map(|(_, _, count, block)| count * block).collect(),
        How::Points(p) => vec![p.len()],
        _ => shape.to_vec(),
    }
}
fn selection(how: &How) -> Option<Selection> {
    match how {
        How::Slice(s) => Some(Selection::from(slab(s))),
        How::Points(p) => Some(Selection::from(p.clone())),
        _ => None,
    }
}
impl<E: Elem> Ops for Of<E> {
    fn create(&self, at: &Group, name: &str, n: &New, stored: Option<&str>, data: &[u64]) -> R<()> {
        let mut b = at.new_dataset_builder().packed(n.packed);
        match &n.layout {
            Layout::Default => {}
            Layout::Compact => b = b.layout(hdf5::dataset::Layout::Compact),
            Layout::Contiguous => b = b.layout(hdf5::dataset::Layout::Contiguous),
            Layout::Chunked(c) => b = b.chunk(c.clone()),
        }
        if n.filters.0 {
            b = b.shuffle();
        }
        if let Some(l) = n.filters.1 {
            b = b.deflate(l);
        }
        if n.filters.2 {
            b = b.fletcher32();
        }
        if n.fill.is_some() {
            b = b.fill_value(E::make(&data[..E::shape().len()]));
        }
        let desc = stored.map(|s| crate::elem::entry(s).ops.descriptor()).unwrap_or(E::type_descriptor());
        if n.data.is_some() {
            let v = self.make(data);
            let v = view(&n.shape, &v)?;
            match stored {
                None => b.with_data(v).conversion(n.conv.get()).create(name)?,
                Some(_) => b.with_data_as(v, &desc).conversion(n.conv.get()).create(name)?,
            };
        } else {
            let b = match stored {
                None => b.empty::<E>(),
                Some(_) => b.empty_as(&desc),
            };
            let ext: Vec<hdf5::Extent> = n.shape.iter().map(|k| if n.resizable { hdf5::Extent::resizable(*k) } else { hdf5::Extent::fixed(*k) }).collect();
            b.shape(hdf5::SimpleExtents::from_vec(ext)).create(name)?;
        }
        Ok(())
    }
    fn create_attr(&self, at: &Location, name: &str, n: &New, stored: Option<&str>, data: &[u64]) -> R<()> {
        let b = at.new_attr_builder();
        let desc = stored.map(|s| crate::elem::entry(s).ops.descriptor()).unwrap_or(E::type_descriptor());
        if n.data.is_some() {
            let v = self.make(data);
            let v = view(&n.shape, &v)?;
            match stored {
                None => b.with_data(v).packed(n.packed).conversion(n.conv.get()).create(name)?,
                Some(_) => b.with_data_as(v, &desc).packed(n.packed).conversion(n.conv.get()).create(name)?,
            };
        } else {
            let b = match stored {
                None => b.empty::<E>(),
                Some(_) => b.empty_as(&desc),
            };
            b.shape(n.shape.clone()).packed(n.packed).create(name)?;
        }
        Ok(())
    }
    fn write(&self, at: &Container, shape: &[usize], how: &How, conv: Conv, data: &[u64]) -> R<()> {
        let v = self.make(data);
        let w = at.as_writer().conversion(conv.get());
        match how {
            How::Raw => w.write_raw(&v[..]),
            How::Scalar => w.write_scalar(&v[0]),
            How::Whole | How::Fixed => match (how, shape.len()) {
                (How::Fixed, 1) => w.write(ndarray::ArrayView1::from(&v[..])),
                _ => w.write(view(shape, &v)?),
            },
            How::Slice(_) | How::Points(_) => w.write_slice(view(&selected(how, shape), &v)?, selection(how).unwrap()),
        }
    }
    fn read(&self, at: &Container, how: &How, conv: Conv) -> R<(Vec<usize>, Vec<u64>)> {
        let r = at.as_reader().conversion(conv.get());
        match how {
            How::Raw => r.read_raw::<E>().map(|v| (vec![v.len()], self.floats(v.iter()))),
            How::Scalar => r.read_scalar::<E>().map(|x| (vec![], self.floats([x].iter()))),
            How::Whole => r.read_dyn::<E>().map(|a| (a.shape().to_vec(), self.floats(a.iter()))),
            How::Fixed => match at.ndim() {
                1 => r.read_1d::<E>().map(|a| (a.shape().to_vec(), self.floats(a.iter()))),
                2 => r.read_2d::<E>().map(|a| (a.shape().to_vec(), self.floats(a.iter()))),
                _ => r.read::<E, ndarray::Ix3>().map(|a| (a.shape().to_vec(), self.floats(a.iter()))),
            },
            How::Slice(_) | How::Points(_) => r.read_slice::<E, _, IxDyn>(selection(how).unwrap()).map(|a: ArrayD<E>| (a.shape().to_vec(), self.floats(a.iter()))),
        }
    }
    fn describe(&self, at: &Container) -> R<String> {
        let d = at.dtype()?;
        Ok(format!(
            "{:?} size {} shape {:?}; this type: {} {:?} {:?}",
            d.to_descriptor(),
            d.size(),
            at.shape(),
            d.is::<E>(),
            d.conv_to::<E>(),
            d.conv_from::<E>()
        ))
    }
    fn fill(&self, at: &hdf5::Dataset) -> R<Option<Vec<u64>>> {
        let Some(v) = at.fill_value()? else { return Ok(None) };
        let Ok(x) = v.cast::<E>() else { return Err("another type".into()) };
        Ok(Some(self.floats([x].iter())))
    }
    fn descriptor(&self) -> hdf5::types::TypeDescriptor {
        E::type_descriptor()
    }
    fn normal(&self, data: &[u64]) -> Vec<u64> {
        self.floats(self.make(data).iter())
    }
}
